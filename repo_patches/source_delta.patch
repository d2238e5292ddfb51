From 4377af91088381bedbbb821503286b3646636e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:00 +0000
Subject: [PATCH 01/13] fix: give ReorderBuffer's highest seen sequence number
 an initial value

---
 src/ReorderBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 591f309..9e79aa5 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -21,7 +21,8 @@ ReorderBuffer::Message::Message(const uint8_t *payload, size_t len, uintmax_t se
 
 ReorderBuffer::ReorderBuffer(Duration windowPeriod) :
 	m_csn(0),
-	m_deliveredThrough(0)
+	m_deliveredThrough(0),
+	m_highestSeen(0)
 {
 	m_reorderPeriod = std::max(windowPeriod, Duration(0));
 }
-- 
2.43.0


From b6f5df8714036f2af2dc411766b1fc5647524821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:45 +0000
Subject: [PATCH 02/13] fix: do not recompute established Flash crypto keys for
 a duplicated Responder Keying

---
 src/FlashCryptoAdapter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/FlashCryptoAdapter.cpp b/src/FlashCryptoAdapter.cpp
index 4dae557..ff36117 100644
--- a/src/FlashCryptoAdapter.cpp
+++ b/src/FlashCryptoAdapter.cpp
@@ -732,6 +732,10 @@ bool FlashCryptoKey::generateInitiatorKeyingComponent(std::shared_ptr<CryptoCert
 
 bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *responderComponent, size_t len)
 {
+	// a duplicate of the Responder Keying must not disturb established keys (the DH secret is already erased)
+	if(m_complete)
+		return false;
+
 	const uint8_t *componentLimit = responderComponent + len;
 
 	// try to fail on cheaper stuff first
-- 
2.43.0


From 3caa746d9823f16fa15e6ff2ac290acac0ddd699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:17 +0000
Subject: [PATCH 03/13] fix: take a canceled timer's action out before
 destroying it

---
 src/Timer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Timer.cpp b/src/Timer.cpp
index 0a2d79a..f1845fe 100644
--- a/src/Timer.cpp
+++ b/src/Timer.cpp
@@ -70,9 +70,11 @@ bool Timer::doesRecur() const
 
 void Timer::cancel()
 {
+	Action doomed; // destroying the action can cancel this timer again, so it must be out of the way first
+
 	m_canceled = true;
 	if(not m_firing)
-		action = nullptr; // in case any circular references
+		std::swap(doomed, action); // in case any circular references
 
 	if(m_timerList)
 		m_timerList->removeTimer(share_ref(this));
-- 
2.43.0


From 8c782a2b26ec9a058d88ea694561e87900c56e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:17 +0000
Subject: [PATCH 04/13] fix: let timers forget the timer list, and destroy them
 one at a time, when it is cleared

---
 src/Timer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Timer.cpp b/src/Timer.cpp
index f1845fe..80f4bf8 100644
--- a/src/Timer.cpp
+++ b/src/Timer.cpp
@@ -246,7 +246,14 @@ void TimerList::removeTimer(const std::shared_ptr<Timer> &timer)
 
 void TimerList::clear()
 {
-	m_timers.clear();
+	// destroying a timer can remove others from the list, and a timer that lives on must forget the list
+	while(not m_timers.empty())
+	{
+		auto it = m_timers.begin();
+		auto each = *it;
+		each->setTimerList(nullptr);
+		m_timers.erase(it);
+	}
 }
 
 } } // namespace com::zenomt
-- 
2.43.0


From 8c6f1a6ac31256e7007204d87f2b74b1679e36d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:25 +0000
Subject: [PATCH 05/13] fix: release tasks waiting for completion when the
 Performer is closed

---
 src/Performer.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Performer.cpp b/src/Performer.cpp
index b0e7f7e..8577913 100644
--- a/src/Performer.cpp
+++ b/src/Performer.cpp
@@ -28,9 +28,9 @@ struct Performer::Item {
 		}
 	}
 
-	void fire()
+	void fire(bool run)
 	{
-		if(m_task)
+		if(run and m_task)
 			m_task();
 		if(m_cond)
 		{
@@ -70,7 +70,10 @@ void Performer::close()
 {
 	if(not m_closed)
 	{
-		m_closed = true;
+		{
+			std::unique_lock<std::mutex> locked(m_mutex);
+			m_closed = true;
+		}
 
 		if(m_runLoop)
 			m_runLoop->unregisterDescriptor(m_pipe[READ_PIPE_IDX]);
@@ -98,6 +101,8 @@ void Performer::perform(const Task &task, bool wait)
 	std::shared_ptr<Item> item = std::make_shared<Item>(task, wait);
 	{
 		std::unique_lock<std::mutex> locked(m_mutex);
+		if(m_closed)
+			return; // no one would fire (or release) this item anymore
 		m_items.push(item);
 	}
 
@@ -138,8 +143,7 @@ void Performer::fireItems()
 			m_items.pop();
 		}
 
-		if(not m_closed)
-			each->fire();
+		each->fire(not m_closed); // when closed, don't run the task but do release a waiter
 	}
 }
 
-- 
2.43.0


From 4d75f3fd32933930a21f62ec2411c9ffa30a0f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:28 +0000
Subject: [PATCH 06/13] fix: don't read the session's cookie and keying
 component on a worker thread

A Cookie Change received while the session's initiator keying component is
still being generated started a worker task that read m_skic while the
protocol thread was assigning it.
---
 src/Session.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Session.cpp b/src/Session.cpp
index f2a7e56..57af7e6 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -1329,9 +1329,11 @@ void Session::onCookieChange(const uint8_t *oldCookie_, size_t oldCookieLen, con
 	m_resp_cookie = Bytes(newCookie_, newCookie_ + newCookieLen);
 
 	auto myself = share_ref(this);
-	m_rtmfp->m_platform->perform(m_rtmfp->getNextThreadNum(), [myself] {
+	Bytes cookie = m_resp_cookie;
+	Bytes skic = m_skic; // copy; myself->m_skic must not be used in another thread
+	m_rtmfp->m_platform->perform(m_rtmfp->getNextThreadNum(), [myself, cookie, skic] {
 		Bytes iikeying;
-		if(not myself->makeIIKeyingChunk(myself->m_resp_cookie, myself->m_skic, iikeying))
+		if(not myself->makeIIKeyingChunk(cookie, skic, iikeying))
 		{
 			myself->m_rtmfp->m_platform->perform(0, [myself] { myself->abort(); });
 			return;
-- 
2.43.0


From 89dee5ef8eefd5c8726ad2027d8e2e29551f971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:41 +0000
Subject: [PATCH 07/13] fix: SendFlow: scheduling an unbound flow (setPriority
 while opening or closed) dereferenced its null session

---
 src/SendFlow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index cbc86aa..17c38df 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -327,7 +327,7 @@ void SendFlow::doWritable()
 
 void SendFlow::scheduleForTransmission()
 {
-	if(isMaybeReadyForTransmission())
+	if(m_session and (Session::S_OPEN == m_session->m_state) and isMaybeReadyForTransmission())
 		m_session->scheduleFlowForTransmission(share_ref(this), m_priority);
 }
 
-- 
2.43.0


From c59f7b83b825a6f452b6804adc79ce131bc43707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:20 +0000
Subject: [PATCH 08/13] fix: SendFlow: a write receipt's onFinished closing the
 flow or session left dangling fragments and a null session

---
 include/rtmfp/rtmfp.hpp |  1 +
 src/SendFlow.cpp        | 31 +++++++++++++++++++++++--------
 src/Session.cpp         | 10 ++++++----
 src/WriteReceipt.cpp    | 14 ++++++++------
 4 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/include/rtmfp/rtmfp.hpp b/include/rtmfp/rtmfp.hpp
index f0c8e3d..3f9a37d 100644
--- a/include/rtmfp/rtmfp.hpp
+++ b/include/rtmfp/rtmfp.hpp
@@ -290,6 +290,7 @@ protected:
 	void queueWritableNotify();
 	void doWritable();
 	void scheduleForTransmission();
+	bool isBoundToOpenSession() const;
 	bool isMaybeReadyForTransmission();
 	void trimSendQueue(Time now);
 	void scheduleTrimSendQueue();
diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 17c38df..0a958e6 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -327,10 +327,15 @@ void SendFlow::doWritable()
 
 void SendFlow::scheduleForTransmission()
 {
-	if(m_session and (Session::S_OPEN == m_session->m_state) and isMaybeReadyForTransmission())
+	if(isBoundToOpenSession() and isMaybeReadyForTransmission())
 		m_session->scheduleFlowForTransmission(share_ref(this), m_priority);
 }
 
+bool SendFlow::isBoundToOpenSession() const
+{
+	return m_session and (Session::S_OPEN == m_session->m_state);
+}
+
 bool SendFlow::isMaybeReadyForTransmission()
 {
 	if(m_send_queue.empty())
@@ -346,15 +351,17 @@ void SendFlow::trimSendQueue(Time now)
 	{
 		if(m_send_queue.size() < 2)
 			break;
-		auto &first = m_send_queue.firstValue();
+		auto first = m_send_queue.firstValue(); // a copy, the receipt's onFinished might change the queue
 		if(first->m_in_flight)
 			break;
 		first->m_receipt->abandonIfNeeded(now);
 		if(not first->m_receipt->isAbandoned())
 			break;
-		first->m_receipt->useCountDown();
+		if(m_send_queue.empty() or (first != m_send_queue.firstValue()))
+			break;
 		m_send_queue.removeFirst();
 		anyTrimmed = true;
+		first->m_receipt->useCountDown();
 	}
 
 	if(anyTrimmed)
@@ -376,7 +383,7 @@ void SendFlow::scheduleTrimSendQueue()
 
 uintmax_t SendFlow::findForwardSequenceNumber(Time now)
 {
-	auto &first = m_send_queue.firstValue();
+	auto first = m_send_queue.firstValue(); // a copy, the receipt's onFinished might change the queue
 
 	if(not first->m_in_flight)
 		first->m_receipt->abandonIfNeeded(now);
@@ -398,7 +405,11 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 
 	Time now = m_rtmfp->getCurrentTime();
 	trimSendQueue(now);
+	if(not isBoundToOpenSession())
+		return false; // an onFinished closed us
 	uintmax_t fsn = findForwardSequenceNumber(now);
+	if(not isBoundToOpenSession())
+		return false;
 	bool firstChunk = true;
 	uintmax_t previousSN = 0;
 
@@ -428,7 +439,7 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(m_outstanding_bytes >= m_rx_buffer_size)
 			break;
 
-		auto &frag = m_send_queue.at(name);
+		auto frag = m_send_queue.at(name); // a copy, the receipt's onFinished might change the queue
 		if(frag->m_in_flight)
 			continue;
 
@@ -437,6 +448,8 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(frag->m_ever_sent and not frag->m_receipt->retransmit)
 			frag->m_receipt->abandon();
 		frag->m_receipt->abandonIfNeeded(now);
+		if(not isBoundToOpenSession())
+			return false; // an onFinished closed us
 		uint8_t flag_abn = frag->m_receipt->isAbandoned() ? USERDATA_FLAG_ABN : 0;
 
 		// departure from §3.6.2.3: we send a fragment even if abandoned (though with
@@ -517,7 +530,7 @@ void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo)
 	{
 		long next = m_send_queue.next(name);
 
-		auto &frag = m_send_queue.at(name);
+		auto frag = m_send_queue.at(name); // a copy, the receipt's onFinished might change the queue
 
 		if(frag->m_sequence_number < ackFrom)
 		{
@@ -536,11 +549,13 @@ void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo)
 			m_outstanding_bytes -= frag->m_transmit_size;
 		}
 
-		frag->m_receipt->useCountDown();
-
 		m_send_queue.remove(name);
 
 		name = next;
+
+		frag->m_receipt->useCountDown();
+		if(not isBoundToOpenSession())
+			name = m_send_queue.SENTINEL; // an onFinished closed us
 	}
 }
 
diff --git a/src/Session.cpp b/src/Session.cpp
index 57af7e6..757fcd8 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -1509,7 +1509,8 @@ bool Session::onInterfaceWritable(int interfaceID, int priority)
 			List<std::shared_ptr<SendFlow> > &flows = m_readyFlows[priority];
 			while(not flows.empty())
 			{
-				if(flows.firstValue()->assembleData(&packet, priority))
+				auto flow = flows.firstValue(); // a copy, an onFinished might close the flow
+				if(flow->assembleData(&packet, priority))
 				{
 					flows.moveNameToTail(flows.first());
 					m_next_tsn++;
@@ -1532,7 +1533,7 @@ bool Session::onInterfaceWritable(int interfaceID, int priority)
 		}
 	}
 
-	if(packet.remaining() == startingSize)
+	if((S_OPEN != m_state) or (packet.remaining() == startingSize))
 		return false;
 
 	// else we put something in the packet, try to piggyback any waiting acks
@@ -1730,7 +1731,7 @@ void Session::onPacketAfterChunks(uint8_t flags, long timestamp, long timestampE
 	if(m_rx_data_packets >= OBLIGATORY_ACK_AFTER)
 		ackNow();
 
-	if(m_any_acks)
+	if(m_any_acks and (S_OPEN == m_state))
 	{
 		size_t acked_bytes_this_packet = m_pre_ack_outstanding - m_outstandingFrags.sum();
 		size_t lost_bytes_this_packet = 0;
@@ -2061,7 +2062,8 @@ void Session::onAckChunk(uint8_t mode, uint8_t chunkType, const uint8_t *chunk,
 		else
 			bufferBytesAvailable = bufferBlocksAvailable * 1024;
 
-		m_sendFlows.at((long)flowID)->onAck(chunkType, bufferBytesAvailable, cumulativeAck, cursor, limit);
+		auto flow = m_sendFlows.at((long)flowID); // a copy, an onFinished might close the flow
+		flow->onAck(chunkType, bufferBytesAvailable, cumulativeAck, cursor, limit);
 		m_any_acks = true;
 		m_keepalive_outstanding = false;
 		m_retransmit_deadline_epoch = INFINITY;
diff --git a/src/WriteReceipt.cpp b/src/WriteReceipt.cpp
index 1eb61d9..4471299 100644
--- a/src/WriteReceipt.cpp
+++ b/src/WriteReceipt.cpp
@@ -24,9 +24,10 @@ void WriteReceipt::abandon()
 	{
 		m_abandoned = true;
 		parent.reset();
-		if(onFinished)
-			onFinished(true);
-		onFinished = nullptr;
+		std::function<void(bool abandoned)> finished_f;
+		swap(finished_f, onFinished);
+		if(finished_f)
+			finished_f(true); // this might release us
 	}
 }
 
@@ -89,9 +90,10 @@ void IssuerWriteReceipt::useCountDown()
 	if(0 == --m_useCount)
 	{
 		parent.reset();
-		if(onFinished)
-			onFinished(false);
-		onFinished = nullptr;
+		std::function<void(bool abandoned)> finished_f;
+		swap(finished_f, onFinished);
+		if(finished_f)
+			finished_f(false); // this might release us
 	}
 }
 
-- 
2.43.0


From 076ab8b16b50b0989b87361a521622bafaea8ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:43 +0000
Subject: [PATCH 09/13] fix: flows of a closing session: do not bind new flows
 to it, and keep a flow while telling it

---
 src/RTMFP.cpp    | 2 +-
 src/SendFlow.cpp | 2 +-
 src/Session.cpp  | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index 9a54dae..76bd7db 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -88,7 +88,7 @@ std::shared_ptr<SendFlow> RTMFP::openFlow(const Bytes &epd, const Bytes &metadat
 
 	rv = share_ref(new SendFlow(this, epd, metadata, nullptr, pri), false);
 	auto session = findOpenSessionByEPD(epd);
-	if(session)
+	if(session and (Session::S_OPEN == session->m_state)) // it might be telling its flows that it's closing right now
 	{
 		rv->onSessionDidOpen(rv, session);
 		return rv;
diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 0a958e6..0f19cba 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -260,7 +260,7 @@ std::shared_ptr<WriteReceipt> SendFlow::basicWrite(const void *message, size_t l
 
 void SendFlow::onSessionDidOpen(std::shared_ptr<SendFlow> myself, std::shared_ptr<Session> session)
 {
-	if(m_session)
+	if(m_session or (Session::S_OPEN != session->m_state))
 		return;
 
 	if( (not m_openingSession)
diff --git a/src/Session.cpp b/src/Session.cpp
index 757fcd8..76d6907 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -512,7 +512,8 @@ void Session::abortFlowsAndTimers()
 	while(not m_sendFlows.empty())
 	{
 		long firstName = m_sendFlows.first();
-		m_sendFlows.at(firstName)->onSessionDidClose(myself); // should unbind, removing itself from m_sendFlows
+		auto flow = m_sendFlows.at(firstName); // a copy, the application might drop the flow in its onException
+		flow->onSessionDidClose(myself); // should unbind, removing itself from m_sendFlows
 		assert(not m_sendFlows.has(firstName));
 	}
 	m_outstandingFrags.clear(); // safe since all SendFlow queues are empty
@@ -523,8 +524,9 @@ void Session::abortFlowsAndTimers()
 	while(not m_recvFlows.empty())
 	{
 		auto it = m_recvFlows.begin();
-		it->second->abort();
+		auto flow = it->second;
 		m_recvFlows.erase(it);
+		flow->abort();
 	}
 
 	m_ackFlows.clear();
-- 
2.43.0


From 8dc82a5099d8f1edea163e1388296207ea730f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:15 +0000
Subject: [PATCH 10/13] fix: a data message with a format id is ignored when it
 is too short to have one

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 9e5ec4a..026623f 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -529,7 +529,7 @@ void TCStream::onDataMessage(uint8_t messageType, uint32_t timestamp, const uint
 	const uint8_t *cursor = payload;
 	const uint8_t *limit = cursor + len;
 
-	if((TCMSG_DATA_EX == messageType) and (0 != *cursor++))
+	if((TCMSG_DATA_EX == messageType) and ((0 == len) or (0 != *cursor++)))
 		return; // only format 0 is defined
 
 	auto command = AMF0::decode(&cursor, limit);
-- 
2.43.0


From 316f6863df984b3ab50e49b090772813bb2b4f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:01 +0000
Subject: [PATCH 11/13] fix: abandon the queued messages of a flow that is
 closed before its session opens

---
 src/SendFlow.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 0f19cba..5f49b2e 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -196,6 +196,9 @@ void SendFlow::close()
 		gotoStateClosed();
 
 	m_rtmfp->sendFlowIsNotOpening(myself);
+
+	if((F_CLOSED == m_state) and not m_exception) // nothing in the queue will be sent anymore
+		m_send_queue.valuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
 }
 
 Priority SendFlow::getPriority() const
-- 
2.43.0


From 193e51f16965c6916398f2d33bb1eb793f40df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:06 +0000
Subject: [PATCH 12/13] fix: the shutdown-complete task keeps the endpoint it
 reports on alive

---
 src/RTMFP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index 76bd7db..5a13146 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -510,7 +510,8 @@ void RTMFP::checkShutdownComplete()
 	if(m_shutdown and m_sessions.empty() and m_startupSession->empty() and not m_shutdownComplete)
 	{
 		m_shutdownComplete = true;
-		m_platform->perform(0, [this] { m_platform->onShutdownComplete(); });
+		auto myself = share_ref(this);
+		m_platform->perform(0, [myself] { myself->m_platform->onShutdownComplete(); });
 	}
 }
 
-- 
2.43.0


From 7fed6224f25531e8c30d9398744affc8b9542a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:01 +0000
Subject: [PATCH 13/13] fix: don't open a Tin-Can stream under a number less
 than one

A createStream result between 0 and 1 (such as 0.5) passed the test for a positive number but became
stream ID 0. Such a stream was never removed from the table, and closing the connection then failed
the assertion that no streams are left, terminating the program.
---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 026623f..e180ad3 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -93,7 +93,7 @@ std::shared_ptr<TCStream> TCConnection::createStream()
 	basicTransact([this, netStream] (bool success, std::shared_ptr<AMF0> result) {
 		if(  (success)
 		 and (result)
-		 and (result->doubleValue() > 0)
+		 and (result->doubleValue() >= 1.0)
 		 and (result->doubleValue() <= double(UINT32_MAX))
 		 and (0 == m_netStreams.count(uint32_t(result->doubleValue())))
 		)
-- 
2.43.0

