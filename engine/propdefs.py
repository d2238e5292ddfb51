"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (written by gen.py)."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state, observe=observe))


prop('C01', 'Decoders never read outside the bytes they were given',
     'For every byte string received from the network or handed to a public decoder (packet, chunk, option list, address, metadata, AMF value, Tin-Can or media message, keying component), the library reads only bytes inside that string. Truncated, oversized, empty and malformed inputs are refused without an out-of-range read.',
     ['inputs'], 'every input byte string of every length, for each decoder reachable from a received datagram or from the public decoding API',
     'The tests feed a few dozen well-formed strings and a handful of truncations; an off-by-one bound check only shows for one length at one decoder.',
     ['src/Session.cpp', 'src/RTMFP.cpp', 'src/VLU.cpp', 'src/AMF.cpp', 'src/Address.cpp', 'src/TCMessage.cpp', 'src/TCConnection.cpp', 'src/Media.cpp', 'src/FlashCryptoAdapter.cpp', 'src/FlowSyncManager.cpp', 'src/PlainCryptoAdapter.cpp', 'src/RedirectorClient.cpp', 'src/SendFlow.cpp'],
     [('cursor/limit discipline in every chunk and option parser', 'src/Session.cpp ISession::onReceivePacket, *Chunk handlers'), ('checked variable-length and option primitives', 'src/VLU.cpp')])

prop('C02', 'A packet under assembly never outgrows its buffer or keeps a partial chunk',
     'Whatever is queued for sending, the packet builder writes only inside the buffer it was initialised with, every append either fits entirely or reports failure leaving the position unchanged, and the bytes handed to encryption or to the caller end at a chunk boundary. A chunk of which any part did not fit is withdrawn, never committed; only the range list of an acknowledgement may be cut short, and only where its caller allows it.',
     ['inputs', 'histories'], 'every sequence of appended values and every remaining capacity, at every place that builds a packet',
     'Tests assemble small packets with room to spare; the overflow and rollback branches need an exactly full packet.',
     ['src/PacketAssembler.cpp', 'src/SendFlow.cpp', 'src/RecvFlow.cpp', 'src/Session.cpp', 'src/RTMFP.cpp'],
     [('remaining() test before each append', 'src/PacketAssembler.cpp'), ('commitChunk/rollbackChunk', 'src/SendFlow.cpp SendFlow::assembleData; src/RecvFlow.cpp RecvFlow::assembleAck; src/Session.cpp')])

prop('C03', 'Nothing is taken from a decode step that failed',
     'Every decode step (variable-length number, option, address, AMF value, metadata, certificate, keying component, decryption) that can fail has its failure noticed before what it wrote, the object it made or filled, or the advance it reports are used. A decode step made of further steps never answers success after one of them failed; AMF argument lists keep what was decoded before a failure.',
     ['inputs'], 'every malformed or truncated input at every decode step',
     'Tests mostly exercise successful decoding; using a stale value after a failed step needs a specific truncation.',
     ['src/Session.cpp', 'src/RTMFP.cpp', 'src/VLU.cpp', 'src/AMF.cpp', 'src/TCMessage.cpp', 'src/TCConnection.cpp', 'src/Media.cpp', 'src/FlashCryptoAdapter.cpp', 'src/FlowSyncManager.cpp', 'src/PlainCryptoAdapter.cpp', 'src/RedirectorClient.cpp', 'src/SendFlow.cpp'],
     [('zero/false result tested at each call', 'src/Session.cpp chunk handlers; src/VLU.cpp Option::parse')])

prop('C04', 'Decoding recursion is bounded by a constant',
     'Decoding any received bytes uses a call depth bounded by a compile-time constant: no chain of calls driven by the content of a message can recurse without passing a depth limit.',
     ['inputs'], 'every nesting depth of a received AMF value or any other self-nesting structure',
     'Tests nest a few levels; exhausting the stack needs hundreds of thousands of levels in one message.',
     ['src/AMF.cpp', 'src/TCMessage.cpp', 'src/TCConnection.cpp'],
     [('depth parameter and limit', 'src/AMF.cpp AMF0::decode')])

prop('C05', 'A responder opens a session only for a proven, authenticated initiator',
     'A session requested by a far endpoint becomes open only after, in this order: the cookie it presented was found valid for its own address and still fresh, its certificate decoded and was reported authentic, its signature over the keying parameters it sent was verified with that certificate, and the session key was derived from those same parameters. A shutdown, an existing session to the same peer, or losing a simultaneous open is honoured at the moment of opening, after every asynchronous step.',
     ['inputs', 'schedules', 'histories'], 'every initiator keying message, every interleaving of asynchronous certificate, signature and key work with shutdown, retransmissions and other handshakes',
     'Tests run complete, honest handshakes with immediate crypto callbacks; skipping one verification is invisible to an honest peer.',
     ['src/RTMFP.cpp', 'src/Session.cpp'],
     [('cookie check before certificate work', 'src/RTMFP.cpp RTMFP::onIIKeying, checkCookie'), ('authenticity then signature then keying, then re-check on the protocol thread', 'src/RTMFP.cpp RTMFP::onIIKeying')])

prop('C06', 'An initiator opens a session only with the responder it asked for',
     'A session initiated here sends keying, and later becomes open, only with a responder whose certificate decoded, matches the endpoint discriminator that was asked for and was reported authentic; it opens only after the responder signature over its keying parameters and our own keying component was verified by that certificate and the keys were combined. Every reply is acted on only while the session is still in the handshake state that awaits it, also after each asynchronous step.',
     ['inputs', 'schedules', 'histories'], 'every responder hello, cookie change and responder keying message, in every state and interleaving',
     'Tests use honest responders; a forged or late reply never occurs in them.',
     ['src/Session.cpp'],
     [('certificate selection and authenticity before keying', 'src/Session.cpp Session::onRHello'), ('signature check over parameters and near component', 'src/Session.cpp Session::onRIKeying')])

prop('C07', 'Unproven peers cannot make the endpoint keep state or do public-key work',
     'Until a far address has returned a valid cookie, hello and keying requests from it create no session, no entry in any session table and no asynchronous work, and trigger no certificate or signature operation; only a reply to a hello of ours may. Initiator keying work in progress is limited to a fixed number, and every started unit of it is released when it ends, whatever its outcome.',
     ['inputs', 'fault_sequences'], 'every flood of hello and keying packets from unverified addresses',
     'Tests never send unsolicited handshakes; state growth has no visible effect in a short run.',
     ['src/RTMFP.cpp', 'src/Session.cpp'],
     [('stateless cookie', 'src/RTMFP.cpp RTMFP::onIHello, onIIKeying, checkCookie'), ('limit on waiting keying work', 'src/RTMFP.cpp RTMFP::onIIKeying')])

prop('C08', 'Session state only moves forward',
     'A session passes through its states in one direction only (handshake, open, closing, closed): once it has begun closing it never becomes open again, and once closed it never leaves that state. Closing work runs at most once per session.',
     ['histories', 'schedules'], 'every sequence of API calls, timers, packets and asynchronous completions',
     'Tests follow the normal sequence; resurrecting a closed session needs a completion that arrives late.',
     ['src/Session.cpp', 'src/RTMFP.cpp'],
     [('state tests before each transition', 'src/Session.cpp Session::setOpen, setNearclose, setFarcloseLinger, abort')])

prop('C09', 'Chunks act only in the states and packet modes that allow them',
     'A received chunk has an effect only if the session state and the packet mode allow it: handshake replies only in startup-mode packets while the session is opening, flow, ping, acknowledgement and congestion chunks only in non-startup packets of an open session, close chunks only in non-startup packets of a session that is open or closing. Packets carrying the reserved mode or the receiving side\'s own mode are discarded whole.',
     ['inputs', 'histories'], 'every chunk type in every packet mode and every session state',
     'Tests send the right chunks at the right time; they never present a chunk in a wrong state or mode.',
     ['src/Session.cpp'],
     [('dispatch by mode and state', 'src/Session.cpp Session::onChunk, Session::onPacketHeader, StartupSession::onChunk')])

prop('C10', 'Closing a session releases everything that belongs to it',
     'When a session ends, in whatever state and for whatever reason, all its timers are cancelled, every sending and receiving flow bound to it or waiting for it is told exactly once, its queues are emptied and it is removed from every lookup table, so that no later packet or timer reaches it. Removal is skipped only for tables in which it was never entered.',
     ['histories', 'schedules'], 'every way a session can end, from every state',
     'Tests end sessions in one or two ways; a forgotten table entry or timer shows up much later, if at all.',
     ['src/Session.cpp', 'src/RTMFP.cpp', 'src/SendFlow.cpp', 'src/RecvFlow.cpp'],
     [('single teardown path', 'src/Session.cpp Session::abort, abortFlowsAndTimers; src/RTMFP.cpp RTMFP::onSessionDidClose')])

prop('C11', 'No deferred callback outlives the object it uses',
     'Every timer action, task for another thread or the run loop, crypto completion, descriptor action and interface notification that the library stores for later either shares ownership of each library object it uses, or is withdrawn before that object is destroyed. A timer whose action uses an object without owning it stays reachable from that object until it fired or was cancelled, so that it can be withdrawn. (The endpoint and platform adapter as such are kept alive by the application.)',
     ['schedules', 'histories'], 'every order of destruction, cancellation and firing',
     'A dangling callback needs the object to be destroyed while the callback is pending, which no test arranges.',
     ['src/Session.cpp', 'src/RTMFP.cpp', 'src/SendFlow.cpp', 'src/RecvFlow.cpp', 'src/Interface.cpp', 'src/ReorderBuffer.cpp', 'src/RedirectorClient.cpp', 'src/TCConnection.cpp', 'src/FlowSyncManager.cpp', 'src/Performer.cpp', 'src/PosixPlatformAdapter.cpp'],
     [('self-retaining captures', 'share_ref/retain_ref captures throughout src'), ('cancellation in destructors and close', 'src/Session.cpp Session::~Session, abortFlowsAndTimers')])

prop('C12', 'Protocol state is touched only on the protocol thread',
     'Work that the library runs on a worker thread uses only values captured for it and the crypto objects; it never reads or writes session, flow, interface, timer or endpoint state. All results return to the protocol thread before they act on that state.',
     ['schedules'], 'every interleaving of worker-thread tasks with the protocol thread',
     'The default test platform runs all tasks on one thread, and a data race rarely fails a run.',
     ['src/RTMFP.cpp', 'src/Session.cpp', 'src/PerformerPosixPlatformAdapter.cpp', 'src/PosixPlatformAdapter.cpp'],
     [('perform(thread, task) hand-off', 'src/RTMFP.cpp RTMFP::onIIKeying; src/Session.cpp Session::onRHello, onRIKeying'), ('thread routing', 'src/PerformerPosixPlatformAdapter.cpp')])

prop('C13', 'Cross-thread task queue: mutex held, no lost wake-up, no call under lock',
     'The cross-thread task queue and its flags are accessed only with its mutex held, a queued task is always followed by a wake-up that the consumer will see, user tasks run without the mutex held, and a task waiting for completion is always released, also when the queue is closed.',
     ['schedules'], 'every interleaving of producers, the consumer and close',
     'Thread interleavings are not controlled by the tests; a missed wake-up is a rare hang.',
     ['src/Performer.cpp', 'include/rtmfp/Performer.hpp'],
     [('lock, push, signal order', 'src/Performer.cpp Performer::perform'), ('clear-signal before drain', 'src/Performer.cpp Performer::onSignaled')])

prop('C14', 'The peer address changes only after the new address is verified',
     'The address and interface a session sends to change only when a reply to a mobility check arrives that echoes a check made by this endpoint for exactly that address and interface, is fresh and is newer than the last one accepted. Nothing else that a packet\'s source address says redirects an established session.',
     ['inputs', 'histories'], 'every packet source address, every forged, replayed, stale or reordered mobility reply',
     'No test changes address or forges a reply.',
     ['src/Session.cpp'],
     [('mobility check hash and timestamps', 'src/Session.cpp Session::onMobilityCheckReply, makeMobilityCheck')])

prop('C15', 'Bytes in flight are counted exactly',
     'While a session is open, a data fragment being marked as in flight, its entry in the session\'s list of outstanding fragments and its share of its flow\'s outstanding byte count begin together and end together, exactly once, whether it is acknowledged, found lost or timed out. The amount removed is the amount that was added.',
     ['histories', 'fault_sequences'], 'every order of send, acknowledgement, negative acknowledgement, timeout, abandonment and close',
     'A drifting count only stalls or floods a transfer after many losses in a particular order.',
     ['src/SendFlow.cpp', 'src/Session.cpp'],
     [('paired updates', 'src/SendFlow.cpp SendFlow::assembleData, ackRange, onLoss; src/Session.cpp Session::onAckChunk, onTimeoutAlarm')])

prop('C16', 'Every write is reported finished exactly once',
     'The receipt of an accepted write is released exactly once for every fragment it was split into, when that fragment is acknowledged or dropped after abandonment; everything still queued when its flow is closed unsent, fails or loses its session is abandoned. Its completion is signalled at most once: as delivered only when every fragment was released without abandonment, otherwise as abandoned. A receipt never becomes un-abandoned or un-started.',
     ['histories', 'fault_sequences'], 'every order of acknowledgement, expiry, abandonment, trimming, exception and session loss',
     'Tests check the common completion; duplicate or missing completion needs particular mixes of expiry and acknowledgement.',
     ['src/WriteReceipt.cpp', 'src/SendFlow.cpp'],
     [('use count', 'src/WriteReceipt.cpp'), ('one count per fragment', 'src/SendFlow.cpp SendFlow::basicWrite, ackRange, trimSendQueue')])

prop('C17', 'Closed or failed flows accept nothing and call back no more',
     'After a flow has been closed, rejected or has failed, writes to it are refused, application callbacks set on it are never invoked again, no further received message is delivered from it, and its terminal notification was delivered at most once. A sending flow only moves forward through open, closing, lingering, closed.',
     ['histories', 'schedules'], 'every sequence of close, exception, completion and session loss',
     'Tests close flows in a single way at a quiet moment.',
     ['src/SendFlow.cpp', 'src/RecvFlow.cpp', 'src/Flow.cpp'],
     [('callbacks cleared on close; open test before use', 'src/Flow.cpp Flow::close; src/SendFlow.cpp SendFlow::close, onExceptionReport; src/RecvFlow.cpp RecvFlow::close, closeAndNotify')])

prop('C18', 'Unwanted or unintelligible flows are refused',
     'A receiving flow that the application does not accept during its arrival callback, that carries no metadata, that carries an unknown mandatory option, or that names an association that is not a live sending flow of this session, delivers no message and is answered with an exception until it ends. Acceptance is decided before any data of the flow is processed.',
     ['inputs', 'histories'], 'every first data chunk of a flow, every option list, every application decision',
     'Tests accept every flow they open and use only known options.',
     ['src/Session.cpp', 'src/RecvFlow.cpp', 'src/RTMFP.cpp'],
     [('reject unless accepted', 'src/Session.cpp Session::onUserDataChunk, onUserData'), ('exception chunk while rejected', 'src/RecvFlow.cpp RecvFlow::assembleAck')])

prop('C19', 'Shutdown lets nothing new start and completes once',
     'From the moment shutdown is requested no new session is created, in either direction, and flows are opened at most on sessions still open; every existing session is closed, those still opening included. Completion is reported to the platform at most once, only when no session remains and the waiting closing packets were sent, and is tested for whenever a session or the last waiting packet goes.',
     ['schedules', 'histories'], 'shutdown at every point of every handshake, with any number of sessions, repeated calls',
     'Tests shut down once, when idle.',
     ['src/RTMFP.cpp', 'src/Session.cpp', 'src/Flow.cpp'],
     [('shutdown flag tested at each entry', 'src/RTMFP.cpp RTMFP::shutdown, openFlow, onIIKeying, checkShutdownComplete')])

prop('C20', 'Congestion marks are used and echoed honestly',
     'Outgoing packets are marked ECN-capable only if they carry user data and the peer has not been found unable to report marks; received congestion marks are always counted and reported back, and reports are sent only after an ECN-capable packet arrived since the last report. A reported new mark is treated as congestion.',
     ['inputs', 'histories'], 'every combination of received marks, reports, and packet contents',
     'Loopback tests never see congestion marks.',
     ['src/Session.cpp', 'src/RecvFlow.cpp'],
     [('mark and report bookkeeping', 'src/Session.cpp Session::onInterfaceWritable, onPacketHeader, assembleEcnReport, onEcnReportChunk')])

prop('C21', 'User data is sent only within congestion and receive windows',
     'New user data is put into a packet only while the session\'s outstanding bytes are below its congestion window and the flow\'s outstanding bytes are below the peer\'s advertised buffer. The congestion window never falls below its minimum of two segments.',
     ['histories', 'inputs'], 'every history of acknowledgements, losses and window advertisements, including a zero window',
     'Tests transfer small amounts over loopback where the windows never bind.',
     ['src/Session.cpp', 'src/SendFlow.cpp'],
     [('window tests', 'src/Session.cpp Session::onInterfaceWritable; src/SendFlow.cpp SendFlow::assembleData'), ('window floor', 'src/Session.cpp Session::updateCWND')])

prop('C22', 'Only intact, fresh, correctly keyed packets are accepted by the Flash crypto',
     'When a session key is complete, a packet is accepted only if it was decrypted with that session\'s key, its HMAC (if negotiated) or else its checksum verified over the whole payload, and, if sequence numbers were negotiated, its number was neither seen before nor too old; only then is the number recorded. On any failure the packet is refused and replay state is unchanged.',
     ['inputs', 'histories'], 'every received datagram: corrupted, truncated, replayed, reordered or forged; every negotiation outcome',
     'Tests decrypt what they just encrypted; acceptance of a forged or replayed packet is not attempted.',
     ['src/FlashCryptoAdapter.cpp'],
     [('verification before acceptance', 'src/FlashCryptoAdapter.cpp FlashCryptoKey::decrypt')])

prop('C23', 'Keying fails closed',
     'A Flash session key becomes complete only if every negotiation step succeeded: compatible HMAC and sequence-number requirements, an HMAC length within limits, a supported group, a valid far public key, and setup of the derived keys; any failure is reported as failure and leaves the key incomplete. Requirements configured locally are never silently dropped, the shared secret is erased once keys are derived, and the keys of a complete initiator are never derived again.',
     ['inputs', 'configurations'], 'every keying component from a hostile or incompatible peer and every local configuration',
     'Tests negotiate between two copies of the same honest implementation.',
     ['src/FlashCryptoAdapter.cpp', 'src/FlashCryptoAdapter_OpenSSL.cpp'],
     [('checked negotiation steps', 'src/FlashCryptoAdapter.cpp initiatorCombineResponderKeyingComponent, generateResponderKeyingComponent, computeKeysAndNonces'), ('public key validation', 'src/FlashCryptoAdapter_OpenSSL.cpp DH context')])

prop('C24', 'A cancelled timer never fires and the timer list stays ordered',
     'A timer that has been cancelled never runs its action again, a one-shot timer fires at most once, and a timer\'s due time is changed only while it is out of the ordered list, which it re-enters only if it is still active. Timers cancelled, rescheduled or created by a running action are handled safely.',
     ['histories', 'schedules'], 'every sequence of schedule, reschedule, cancel and fire, including from inside timer actions',
     'Tests run a few timers; corruption of the ordered list by a key change needs particular rescheduling.',
     ['src/Timer.cpp', 'include/rtmfp/Timer.hpp'],
     [('remove, change key, re-insert', 'src/Timer.cpp Timer::setNextFireTime, TimerList'), ('cancel clears the action', 'src/Timer.cpp Timer::cancel')])

prop('C25', 'Run loops never dispatch a withdrawn registration',
     'After a descriptor registration has been withdrawn or replaced, or the run loop stopped or cleared, its old action is not invoked, even if the descriptor was already reported ready in the same cycle. All run loop implementations give the same guarantees for registering, withdrawing, stopping, deferred tasks and timers.',
     ['histories', 'schedules'], 'every order of readiness, registration, withdrawal and stop within one loop cycle',
     'Tests register a few descriptors and never withdraw one from another\'s action.',
     ['src/SelectRunLoop.cpp', 'src/EPollRunLoop.cpp', 'src/RunLoop.cpp'],
     [('cancelled flag tested before each action', 'src/SelectRunLoop.cpp; src/EPollRunLoop.cpp')])

prop('C26', 'Objects never start with indeterminate state',
     'Every data member of scalar or pointer type of every library object has a determinate value as soon as the object is constructed, through every constructor, and no local variable is read before it was assigned on the path taken.',
     ['histories', 'inputs'], 'every constructor and every path through every function',
     'A member left uninitialised usually happens to be zero in a test run.',
     ['include/rtmfp', 'src'],
     [('constructor initialisers and default member initialisers', 'all classes in include/rtmfp and src')])

prop('C27', 'Tin-Can requests are answered exactly once',
     'Each request a Tin-Can client connection takes is sent under the next number and its handler is called exactly once: with the answer that carries that number, or with failure when the connection closes; a connection closes at most once and takes no request afterwards. Connecting is the first request and happens once; a refused connection is closed. A stream is opened only under a whole number from 1 that the server answered and that is not in use; any other answer closes the connection.',
     ['histories', 'inputs'], 'every order of responses, duplicate or unknown transaction numbers, closes from within callbacks',
     'The test suite has no server-driven TC connection test in its stable set.',
     ['src/TCConnection.cpp'],
     [('transaction table', 'src/TCConnection.cpp TCConnection::onTransactionResponse, basicClose')])

prop('C28', 'A redirector client cleans up on every disconnect',
     'Whenever a redirector client loses, leaves or replaces its connection, both flows are closed and their callbacks withdrawn, its pending timers are cancelled, and it reports the status change; after close it never reconnects or calls back.',
     ['histories', 'schedules'], 'every order of exception, flow completion, reconnect timer, close and status callbacks',
     'No test covers the redirector client\'s failure paths.',
     ['src/RedirectorClient.cpp'],
     [('closeFlows and timers', 'src/RedirectorClient.cpp RedirectorClient::close, closeFlows, setStatus, onException')])

prop('C29', 'Flow-sync barriers always release held flows',
     'A receiving flow is put on hold by a synchronisation message only if it was delivering in sequence and stays recorded at the synchronisation point; while on hold none of its messages is delivered. When the expected number of participants has arrived, or the point is reset or its manager ends, every recorded flow that is on hold goes back to sequential delivery and what it received meanwhile is delivered. A sync message received on a flow always reaches the table, with the values it carries.',
     ['histories', 'inputs'], 'every order of sync messages, flow ends and resets',
     'Tests run one or two complete sync rounds.',
     ['src/FlowSyncManager.cpp'],
     [('sync table', 'src/FlowSyncManager.cpp')])

prop('C30', 'Encoders and decoders agree on the wire constants and layout',
     'For every message that the library both writes and reads (chunks, options, addresses, AMF values, Tin-Can and media headers, sync messages, keying options) the type codes, flag bits, field order and field widths written are those the reader expects, and no two kinds in one namespace share a code.',
     ['inputs', 'programs'], 'every message kind and every optional-field combination',
     'Round-trip tests exist only for some kinds and values; a symmetric change of one constant passes them and breaks interoperability.',
     ['include/rtmfp/packet.hpp', 'src/Session.cpp', 'src/RTMFP.cpp', 'src/SendFlow.cpp', 'src/RecvFlow.cpp', 'src/AMF.cpp', 'src/TCMessage.cpp', 'src/Media.cpp', 'src/Address.cpp', 'src/VLU.cpp'],
     [('shared constants', 'include/rtmfp/packet.hpp; include/rtmfp/TCMessage.hpp; include/rtmfp/AMF.hpp')])

prop('C31', 'Reference ownership is never lost or doubled',
     'Every reference-counted object created by the library is owned by exactly the references that exist to it: creating and wrapping it counts once, every manual retain on a path is matched by one release on that path, and no reference-counted object is deleted directly or used after its releasing statement.',
     ['histories', 'programs'], 'every path of every function that creates, retains or releases an object',
     'A leak or double release is silent in short tests.',
     ['include/rtmfp/Object.hpp', 'src/Object.cpp', 'include/rtmfp/Retainer.hpp', 'src'],
     [('share_ref of a new object with its initial count', 'throughout src'), ('retain/release bracketing', 'src/RecvFlow.cpp RecvFlow::close; src/SendFlow.cpp SendFlow::onExceptionReport')])

prop('C32', 'Callbacks may call back into the library',
     'While the library runs an application callback, that callback may close flows, sessions or the whole endpoint, cancel timers or write; when it returns, the library does not use list positions, element references, iterators or callback objects that such calls may have invalidated without looking them up again.',
     ['histories', 'programs'], 'every callback invocation site and every public call made from inside it',
     'Tests make few re-entrant calls, and use of a stale reference often goes unnoticed.',
     ['src/RecvFlow.cpp', 'src/SendFlow.cpp', 'src/Session.cpp', 'src/Flow.cpp', 'src/WriteReceipt.cpp', 'src/ReorderBuffer.cpp', 'src/TCConnection.cpp', 'src/Timer.cpp'],
     [('copy or swap out before calling', 'src/RecvFlow.cpp RecvFlow::closeAndNotify; src/SendFlow.cpp SendFlow::onExceptionReport')])

# ---- not decided by static analysis
prop('C40', 'Messages arrive intact, once and in order',
     'Over any network that loses, duplicates, reorders or delays datagrams, a receiving flow in original order delivers each message that was not abandoned exactly once, complete, and in the order it was written.',
     ['histories', 'schedules', 'fault_sequences'], 'every loss, duplication and reordering pattern',
     'Loopback tests see almost no reordering or loss.',
     ['src/SendFlow.cpp', 'src/RecvFlow.cpp', 'include/rtmfp/IndexSet.hpp'],
     [('sequence sets and segment linking', 'src/RecvFlow.cpp RecvFlow::insertFragment, tryDelivery')],
     na='Depends on the values of sequence numbers and on the linked-list contents across unbounded packet histories; no syntactic, dataflow or finite abstract domain in reach relates list positions, ranges and sequence numbers well enough to decide it. The structural parts (duplicate gating, accept/reject, accounting) are C15-C18.')
prop('C41', 'Encoding followed by decoding returns the same value',
     'For every value the library can encode (AMF, options, numbers, addresses, metadata, media headers, hexadecimal) decoding the encoding yields an equal value.',
     ['inputs'], 'every value',
     'Round-trip tests sample values.',
     ['src/AMF.cpp', 'src/VLU.cpp', 'src/TCMessage.cpp', 'src/Media.cpp', 'src/Hex.cpp', 'src/Address.cpp'],
     [('encode/decode pairs', 'src')],
     na='Value equality of two computations over unbounded data (bit manipulation, floating point) is not decidable by dataflow or type-level rules; the constant and layout agreement that is decidable is C30.')
prop('C42', 'Retransmission timing, RTT estimation and congestion response are as specified',
     'The retransmission timeout, RTT estimate, congestion window growth and reduction, burst limits and keepalive periods follow the published algorithms for every sequence of measurements.',
     ['histories'], 'every sequence of measurements and acknowledgements',
     'Numerical behaviour over long histories is not checked by tests.',
     ['src/Session.cpp'],
     [('updateCWND, checkBaseRTT', 'src/Session.cpp')],
     na='Quantifies over real-valued runtime measurements and elapsed time; static analysis has no oracle for the numeric trajectories. Only the window floor and gating are structural (C21).')
prop('C43', 'Progress: everything queued is eventually sent or reported failed',
     'As long as the peer responds and the windows are open, queued data, acknowledgements and closing handshakes are eventually transmitted; if the peer stops responding the session ends within its limits.',
     ['schedules', 'fault_sequences'], 'every fair schedule of packets and timers',
     'Stalls need particular loss patterns and long runs.',
     ['src/Session.cpp', 'src/SendFlow.cpp'],
     [('timers and write scheduling', 'src/Session.cpp')],
     na='Liveness over unbounded time and network behaviour; ranking arguments over the timer and window state are out of reach of the static domains used here.')
prop('C44', 'Higher-priority flows are served first and fairly within a priority',
     'When several flows are ready, data of a higher priority is always transmitted before data of a lower one, and flows of equal priority share in turn.',
     ['histories'], 'every set of ready flows',
     'Tests use one or two priorities.',
     ['src/Session.cpp', 'src/Interface.cpp'],
     [('ready lists by priority', 'src/Session.cpp Session::onInterfaceWritable')],
     na='Fairness and service order depend on runtime list contents and callback order in the interface writer; no finite abstraction of the lists decides it.')
prop('C45', 'Index sets and ordered lists keep their content exact',
     'After any sequence of additions and removals an index set contains exactly the indices added and not removed, as disjoint maximal ranges, and a list holds exactly its live elements in order with a correct size sum.',
     ['histories'], 'every sequence of operations',
     'Unit tests apply some dozens of operations.',
     ['src/IndexSet.cpp', 'include/rtmfp/List.hpp'],
     [('range merging, node links', 'src/IndexSet.cpp; include/rtmfp/List.hpp')],
     na='Full functional correctness of a mutable container over all histories needs shape and arithmetic invariants beyond a static rule; it is a proof or model-checking target.')
prop('C46', 'Text formats are read and written as specified',
     'URIs, addresses and hexadecimal strings are parsed and AMF values printed as JSON exactly as their grammars say, for every input string and number.',
     ['inputs'], 'every string and number',
     'Tests sample a few strings.',
     ['src/URIParse.cpp', 'src/AMF.cpp', 'src/Hex.cpp', 'src/Address.cpp'],
     [('regular expressions and number formatting', 'src/URIParse.cpp; src/AMF.cpp')],
     na='Conformance to a text grammar and decimal number formatting is functional correctness over strings; it is not a property of control or data flow that a static rule can decide without re-implementing the grammar.')
