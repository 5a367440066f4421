From 60f0f001bb699cbeae2afd7649dc45ebb2c9983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:22 +0000
Subject: [PATCH 01/11] fix: basic_buffer(other, pos, len) copied from other's
 size instead of its data

---
 include/ext/ext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index 4707bf4..b139116 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -88,7 +88,7 @@ public:
 	{
 		do_detach();
 		if (pos < other.size())
-			append(boost::next(other.size(), pos), pos + len > other.size() ? other.size() - pos : len);
+			append(boost::next(other.data(), pos), len > other.size() - pos ? other.size() - pos : len);
 	}
 
 	inline basic_buffer& operator=(char c) {resize(0); return operator+=(c);}
-- 
2.43.0


From 31f71291402544c7894c612edc0e322db4fe3abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:22 +0000
Subject: [PATCH 02/11] fix: basic_buffer lost its content on self assignment
 and read freed memory when a part of itself was appended

---
 include/ext/ext.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index b139116..1bddf30 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -94,7 +94,7 @@ public:
 	inline basic_buffer& operator=(char c) {resize(0); return operator+=(c);}
 	inline basic_buffer& operator=(char* buff) {resize(0); return operator+=(buff);}
 	inline basic_buffer& operator=(const char* buff) {resize(0); return operator+=(buff);}
-	inline basic_buffer& operator=(const basic_buffer& other) {resize(0); return operator+=(other);}
+	inline basic_buffer& operator=(const basic_buffer& other) {if (this != &other) {resize(0); operator+=(other);} return *this;}
 	template<typename Buff> inline basic_buffer& operator=(const Buff& other) {resize(0); return operator+=(other);}
 
 	inline basic_buffer& operator+=(char c) {return append(c);}
@@ -131,7 +131,14 @@ public:
 
 			size_t capacity = len + _len;
 			if (capacity > cap)
+			{
+				//_buff can be a part of this buffer, which will be moved by reserve
+				bool is_self = NULL != buff && _buff >= buff && _buff < boost::next(buff, len);
+				size_t pos = is_self ? _buff - buff : 0;
 				reserve(capacity);
+				if (is_self)
+					_buff = boost::next(buff, pos);
+			}
 
 			memcpy(boost::next(buff, len), _buff, _len);
 			len += (unsigned) _len;
-- 
2.43.0


From a7b2de52e93b09c9c41acd3f7c2cc977cc97250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:22 +0000
Subject: [PATCH 03/11] fix: basic_buffer::append2(const char*) kept the
 trailing '\0' in the middle of the content

---
 include/ext/ext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index 1bddf30..f675bad 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -167,7 +167,7 @@ public:
 		printf("%zu\n", bb.size()); //the final length of bb is 13, just include the last '\0' character, all middle '\0' characters have been deleted.
 	*/
 	//by the way, deleting the last character which is not '\0' before appending another string is very efficient, please use it freely.
-	basic_buffer& append2(const char* buff) {return append(buff, strlen(buff) + 1);} //include the '\0' character
+	basic_buffer& append2(const char* buff) {return append2(buff, strlen(buff) + 1);} //include the '\0' character
 	basic_buffer& append2(const char* _buff, size_t _len)
 	{
 		if (len > 0 && '\0' == *boost::next(buff, len - 1))
-- 
2.43.0


From a1f9c88123c32a625faf831dbf8913b39c389c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:22 +0000
Subject: [PATCH 04/11] fix: fixed_length_packer::raw_data skipped a head that
 does not exist

---
 include/ext/packer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ext/packer.h b/include/ext/packer.h
index 969e1cc..26e4a33 100644
--- a/include/ext/packer.h
+++ b/include/ext/packer.h
@@ -251,6 +251,11 @@ public:
 	virtual bool pack_msg(msg_type& msg1, msg_type& msg2, container_type& msg_can) {msg_can.emplace_back().swap(msg1); msg_can.emplace_back().swap(msg2); return true;}
 	virtual bool pack_msg(container_type& in, container_type& out) {in.swap(out); return true;}
 	//not support heartbeat because fixed_length_unpacker cannot recognize heartbeat message
+
+	//there's no head in the packed msg
+	virtual char* raw_data(msg_type& msg) const {return const_cast<char*>(msg.data());}
+	virtual const char* raw_data(msg_ctype& msg) const {return msg.data();}
+	virtual size_t raw_data_len(msg_ctype& msg) const {return msg.size();}
 };
 
 //protocol: [prefix] + body + suffix
-- 
2.43.0


From ef84616ba294658e12dace7629ee0d66c2f7dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:23 +0000
Subject: [PATCH 05/11] fix: packers truncated the header of a msg that exceeds
 the header's range

---
 include/ext/packer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ext/packer.h b/include/ext/packer.h
index 26e4a33..a047f41 100644
--- a/include/ext/packer.h
+++ b/include/ext/packer.h
@@ -64,7 +64,11 @@ private:
 	typedef i_packer<T> super;
 
 public:
-	static size_t get_max_msg_size() {return ST_ASIO_MSG_BUFFER_SIZE - ST_ASIO_HEAD_LEN;}
+	static size_t get_max_msg_size() //the header's range can be less than ST_ASIO_MSG_BUFFER_SIZE
+	{
+		size_t max_size = (ST_ASIO_HEAD_TYPE) -1;
+		return (ST_ASIO_MSG_BUFFER_SIZE < max_size ? ST_ASIO_MSG_BUFFER_SIZE : max_size) - ST_ASIO_HEAD_LEN;
+	}
 
 	packer() {ST_ASIO_HEAD_TYPE head_len = packer_helper::pack_header(0); heartbeat.assign((const char*) &head_len, ST_ASIO_HEAD_LEN);}
 
-- 
2.43.0


From 303d6bcb85443fead79042ce0b4792ae4c00fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:23 +0000
Subject: [PATCH 06/11] fix: prefix_suffix_unpacker stopped receiving silently
 if a msg was followed by an invalid prefix

---
 include/ext/unpacker.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ext/unpacker.h b/include/ext/unpacker.h
index d8163cd..ae6ba13 100644
--- a/include/ext/unpacker.h
+++ b/include/ext/unpacker.h
@@ -672,7 +672,8 @@ public:
 
 		const char* pnext = raw_buff.begin();
 		size_t min_len = _prefix.size() + _suffix.size();
-		while (0 == peek_msg(remain_len, pnext) && (size_t) -1 != cur_msg_len && 0 != cur_msg_len)
+		bool invalid = false;
+		while ((invalid = 0 == peek_msg(remain_len, pnext)) && (size_t) -1 != cur_msg_len && 0 != cur_msg_len)
 		{
 			assert(cur_msg_len >= min_len);
 			if (cur_msg_len > min_len) //exclude heartbeat
@@ -692,7 +693,8 @@ public:
 		else if (remain_len > 0)
 			memmove(raw_buff.begin(), pnext, remain_len); //left behind unparsed msg
 
-		return true;
+		//if the left data is invalid, successfully parsed msgs will still returned via msg_can(sticky package), please note.
+		return !invalid;
 	}
 
 	//a return value of 0 indicates that the read operation is complete. a non-zero value indicates the maximum number
-- 
2.43.0


From af75261d0a52ed7f2a8c2983c23593101847e65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:23 +0000
Subject: [PATCH 07/11] fix: prefix_suffix_unpacker recognized a heartbeat only
 after more data arrived

---
 include/ext/unpacker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ext/unpacker.h b/include/ext/unpacker.h
index ae6ba13..04c1976 100644
--- a/include/ext/unpacker.h
+++ b/include/ext/unpacker.h
@@ -632,7 +632,7 @@ public:
 			return 0;
 
 		size_t min_len = _prefix.size() + _suffix.size();
-		if (data_len > min_len)
+		if (data_len >= min_len)
 		{
 			const char* end = (const char*) memmem(boost::next(buff, _prefix.size()), data_len - _prefix.size(), _suffix.data(), _suffix.size());
 			if (NULL != end)
-- 
2.43.0


From e0cbd4360f21e588f57afddbac866b8493416bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:49 +0000
Subject: [PATCH 08/11] fix: fixed_length_packer must not pack heartbeats, they
 would shift every following message

---
 include/ext/packer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ext/packer.h b/include/ext/packer.h
index a047f41..6a4bdb0 100644
--- a/include/ext/packer.h
+++ b/include/ext/packer.h
@@ -255,6 +255,7 @@ public:
 	virtual bool pack_msg(msg_type& msg1, msg_type& msg2, container_type& msg_can) {msg_can.emplace_back().swap(msg1); msg_can.emplace_back().swap(msg2); return true;}
 	virtual bool pack_msg(container_type& in, container_type& out) {in.swap(out); return true;}
 	//not support heartbeat because fixed_length_unpacker cannot recognize heartbeat message
+	virtual bool pack_heartbeat(msg_type& msg) {msg.clear(); return false;}
 
 	//there's no head in the packed msg
 	virtual char* raw_data(msg_type& msg) const {return const_cast<char*>(msg.data());}
-- 
2.43.0


From ab1de797f1a6d36b231f263635f3b50c401173aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:31 +0000
Subject: [PATCH 09/11] fix: replacing a timer's call back while it is being
 called destroyed it (and the timer's status could get lost)

---
 include/timer.h | 67 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 12 deletions(-)

diff --git a/include/timer.h b/include/timer.h
index 65957c7..883601a 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -61,7 +61,8 @@ public:
 		timer_status status;
 		unsigned interval_ms;
 		timer_type timer;
-		boost::function<bool (tid)> call_back; //return true from call_back to continue the timer, or the timer will stop
+		boost::shared_ptr<boost::function<bool (tid)> > call_back; //return true from call_back to continue the timer, or the timer will stop
+		//call_back is shared because it can be replaced (by itself or by another service thread) while it's being called
 
 		timer_info(tid id_, boost::asio::io_context& io_context_) : id(id_), seq(-1), status(TIMER_CREATED), interval_ms(0), timer(io_context_) {}
 		bool operator ==(const timer_info& other) {return id == other.id;}
@@ -108,22 +109,47 @@ public:
 		}
 		assert(NULL != ti);
 
+		BOOST_AUTO(new_call_back, boost::make_shared<boost::function<bool (tid)> >());
+		new_call_back->swap(call_back);
+
+		boost::lock_guard<boost::mutex> lock(timer_mutex);
 		ti->interval_ms = interval;
-		ti->call_back.swap(call_back);
+		ti->call_back.swap(new_call_back);
 
 		if (start)
-			start_timer(*ti);
+			do_start_timer(*ti, interval);
 
 		return true;
 	}
 	bool create_or_update_timer(tid id, unsigned interval, const boost::function<bool (tid)>& call_back, bool start = false)
 		{BOOST_AUTO(unused, call_back); return create_or_update_timer(id, interval, unused, start);}
 
-	bool change_timer_status(tid id, typename timer_info::timer_status status) {BOOST_AUTO(ti, find_timer(id)); return NULL != ti ? ti->status = status, true : false;}
+	bool change_timer_status(tid id, typename timer_info::timer_status status)
+	{
+		BOOST_AUTO(ti, find_timer(id));
+		if (NULL == ti)
+			return false;
+
+		boost::lock_guard<boost::mutex> lock(timer_mutex);
+		ti->status = status;
+		return true;
+	}
 	bool change_timer_interval(tid id, unsigned interval) {BOOST_AUTO(ti, find_timer(id)); return NULL != ti ? ti->interval_ms = interval, true : false;}
 
 	//after this call, call_back cannot be used again, please note.
-	bool change_timer_call_back(tid id, boost::function<bool(tid)>& call_back) {BOOST_AUTO(ti, find_timer(id)); return NULL != ti ? ti->call_back.swap(call_back), true : false;}
+	bool change_timer_call_back(tid id, boost::function<bool(tid)>& call_back)
+	{
+		BOOST_AUTO(ti, find_timer(id));
+		if (NULL == ti)
+			return false;
+
+		BOOST_AUTO(new_call_back, boost::make_shared<boost::function<bool (tid)> >());
+		new_call_back->swap(call_back);
+
+		boost::lock_guard<boost::mutex> lock(timer_mutex);
+		ti->call_back.swap(new_call_back);
+		return true;
+	}
 	bool change_timer_call_back(tid id, const boost::function<bool(tid)>& call_back) {BOOST_AUTO(unused, call_back); return change_timer_call_back(id, unused);}
 
 	//after this call, call_back cannot be used again, please note.
@@ -154,9 +180,12 @@ public:
 	DO_SOMETHING_TO_ONE_MUTEX(timer_can, timer_can_mutex, boost::lock_guard<boost::mutex>)
 
 protected:
-	bool start_timer(timer_info& ti, unsigned interval_ms)
+	bool start_timer(timer_info& ti, unsigned interval_ms) {boost::lock_guard<boost::mutex> lock(timer_mutex); return do_start_timer(ti, interval_ms);}
+	bool start_timer(timer_info& ti) {boost::lock_guard<boost::mutex> lock(timer_mutex); return do_start_timer(ti, ti.interval_ms);}
+
+	bool do_start_timer(timer_info& ti, unsigned interval_ms) //timer_mutex must be locked
 	{
-		if (!ti.call_back)
+		if (!ti.call_back || !*ti.call_back)
 			return false;
 
 		ti.status = timer_info::TIMER_STARTED;
@@ -170,7 +199,6 @@ protected:
 		ti.timer.async_wait(ST_THIS make_handler_error(boost::bind(&timer::timer_handler, this, boost::asio::placeholders::error, boost::ref(ti), ++ti.seq)));
 		return true;
 	}
-	bool start_timer(timer_info& ti) {return start_timer(ti, ti.interval_ms);}
 
 	void timer_handler(const boost::system::error_code& ec, timer_info& ti, unsigned char prev_seq)
 	{
@@ -178,17 +206,30 @@ protected:
 		//the second 'timer_info::TIMER_STARTED == ti.status' judgement is used to exclude a particular situation--stop the same timer in call_back and return true
 #ifdef ST_ASIO_ALIGNED_TIMER
 		BOOST_AUTO(begin_time, boost::chrono::system_clock::now());
-		if (timer_info::TIMER_STARTED == ti.status && !ec && ti.call_back(ti.id) && timer_info::TIMER_STARTED == ti.status)
+#endif
+		boost::shared_ptr<boost::function<bool (tid)> > call_back;
+		if (!ec)
+		{
+			boost::lock_guard<boost::mutex> lock(timer_mutex);
+			if (timer_info::TIMER_STARTED == ti.status)
+				call_back = ti.call_back;
+		}
+
+		bool continue_timer = call_back && *call_back && (*call_back)(ti.id);
+
+		boost::lock_guard<boost::mutex> lock(timer_mutex);
+#ifdef ST_ASIO_ALIGNED_TIMER
+		if (continue_timer && timer_info::TIMER_STARTED == ti.status)
 		{
 			unsigned elapsed_ms = (unsigned) boost::chrono::duration_cast<boost::chrono::milliseconds>(boost::chrono::system_clock::now() - begin_time).count();
 			if (elapsed_ms > ti.interval_ms)
 				elapsed_ms %= ti.interval_ms;
 
-			start_timer(ti, ti.interval_ms - elapsed_ms);
+			do_start_timer(ti, ti.interval_ms - elapsed_ms);
 		}
 #else
-		if (timer_info::TIMER_STARTED == ti.status && !ec && ti.call_back(ti.id) && timer_info::TIMER_STARTED == ti.status)
-			start_timer(ti);
+		if (continue_timer && timer_info::TIMER_STARTED == ti.status)
+			do_start_timer(ti, ti.interval_ms);
 #endif
 		else if (prev_seq == ti.seq) //exclude a particular situation--start the same timer in call_back and return false
 			ti.status = timer_info::TIMER_CANCELED;
@@ -196,6 +237,7 @@ protected:
 
 	void stop_timer(timer_info& ti)
 	{
+		boost::lock_guard<boost::mutex> lock(timer_mutex);
 		if (timer_info::TIMER_STARTED == ti.status) //enable stopping timers that has been stopped
 		{
 			ti.status = timer_info::TIMER_CANCELED; //invalidate cumulative timer callbacks first
@@ -212,6 +254,7 @@ private:
 	typedef boost::container::list<timer_info> container_type;
 	container_type timer_can;
 	boost::mutex timer_can_mutex;
+	boost::mutex timer_mutex; //protects status, call back and the timer itself of all timer_infos, never locked while calling call backs
 
 	using Executor::io_context_;
 	unsigned io_context_refs;
-- 
2.43.0


From cbd9b4a106a3cea1a5e5f531ebb6e524a5035880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:31 +0000
Subject: [PATCH 10/11] fix: division by zero with ST_ASIO_ALIGNED_TIMER and an
 interval of 0

---
 include/timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/timer.h b/include/timer.h
index 883601a..bc5ede3 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -223,7 +223,7 @@ protected:
 		{
 			unsigned elapsed_ms = (unsigned) boost::chrono::duration_cast<boost::chrono::milliseconds>(boost::chrono::system_clock::now() - begin_time).count();
 			if (elapsed_ms > ti.interval_ms)
-				elapsed_ms %= ti.interval_ms;
+				elapsed_ms = 0 == ti.interval_ms ? 0 : elapsed_ms % ti.interval_ms;
 
 			do_start_timer(ti, ti.interval_ms - elapsed_ms);
 		}
-- 
2.43.0


From 920f1070363a3c1bfa648060ea5bc8feba5c8462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:40 +0000
Subject: [PATCH 11/11] fix: tcp handlers lost their strand (converted to
 boost::function), so receiving and unpacking could run concurrently with
 recv_msg

---
 include/tcp/socket.h              | 9 ++++-----
 include/tcp/websocket/websocket.h | 8 +++-----
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 6452f5f..1c49b12 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -23,10 +23,9 @@ public:
 	reader_writer(boost::asio::io_context& io_context_) : Socket(io_context_) {}
 	template<typename Arg> reader_writer(boost::asio::io_context& io_context_, Arg& arg) : Socket(io_context_, arg) {}
 
-	typedef boost::function<void(const boost::system::error_code& ec, size_t bytes_transferred)> ReadWriteCallBack;
-
 protected:
-	bool async_read(const ReadWriteCallBack& call_back)
+	//the type of call_back must be kept (don't convert it to boost::function), otherwise, it will lose its associated executor (rw_strand)
+	template<typename CallBack> bool async_read(CallBack call_back)
 	{
 		BOOST_AUTO(recv_buff, ST_THIS unpacker()->prepare_next_recv());
 		assert(boost::asio::buffer_size(recv_buff) > 0);
@@ -50,8 +49,8 @@ protected:
 		return boost::asio::detail::default_max_transfer_size;
 #endif
 	}
-	template<typename Buffer>
-	void async_write(const Buffer& msg_can, const ReadWriteCallBack& call_back) {boost::asio::async_write(ST_THIS next_layer(), msg_can, call_back);}
+	template<typename Buffer, typename CallBack>
+	void async_write(const Buffer& msg_can, CallBack call_back) {boost::asio::async_write(ST_THIS next_layer(), msg_can, call_back);}
 
 private:
 	size_t completion_checker(const boost::system::error_code& ec, size_t bytes_transferred)
diff --git a/include/tcp/websocket/websocket.h b/include/tcp/websocket/websocket.h
index c6e13fa..d598efd 100644
--- a/include/tcp/websocket/websocket.h
+++ b/include/tcp/websocket/websocket.h
@@ -46,13 +46,11 @@ class stream : public LowestLayerGetter<boost::beast::websocket::stream<NextLaye
 private:
 	typedef LowestLayerGetter<boost::beast::websocket::stream<NextLayer>> super;
 
-public:
-	typedef boost::function<void(const boost::system::error_code& ec, size_t bytes_transferred)> ReadWriteCallBack;
-
 public:
 	template<class... Args> explicit stream(Args&&... args) : super(std::forward<Args>(args)...) {first_init();}
 
-	void async_read(const ReadWriteCallBack& call_back) {super::async_read(recv_buff, call_back);}
+	//the type of call_back must be kept (don't convert it to boost::function), otherwise, it will lose its associated executor (rw_strand)
+	template<typename CallBack> void async_read(CallBack call_back) {super::async_read(recv_buff, call_back);}
 	template<typename OutMsgType> bool parse_msg(list<OutMsgType>& msg_can)
 	{
 #if BOOST_VERSION < 107000
@@ -65,7 +63,7 @@ public:
 
 		return re;
 	}
-	template<typename Buffer> void async_write(const Buffer& buff, const ReadWriteCallBack& call_back) {super::async_write(buff, call_back);}
+	template<typename Buffer, typename CallBack> void async_write(const Buffer& buff, CallBack call_back) {super::async_write(buff, call_back);}
 
 protected:
 	//helper function, just call it in constructor
-- 
2.43.0

