CHECKS = {
    'C05': dict(technique='path-sensitive typestate analysis from cookie check to session opening, with obligation lifting through asynchronous continuations',
                note='Follows every path and continuation under the stated assumptions (no aliasing through raw memory); asynchronous steps invalidate what they can change.'),
    'C06': dict(technique='path-sensitive typestate analysis of the initiator handshake, with obligation lifting through callers and asynchronous continuations',
                note='Follows every path and continuation under the stated assumptions (no aliasing through raw memory); asynchronous steps invalidate what they can change.'),
    'C07': dict(technique='path-sensitive reachability of session creation, table entry, asynchronous and public-key work from the startup chunk handler; counter typestate',
                note='Complete over call paths from the startup chunk handler; assumes state is created through the named library calls.'),
    'C08': dict(technique='typestate dataflow over the lowered program with obligation lifting through callers and asynchronous continuations',
                note='Sound for stores through the named field under the stated assumptions (no aliasing through raw memory); bounded call-following depth.'),
    'C04': dict(technique='call-graph strongly connected components and typestate of the depth argument along every recursive call',
                note='Complete over the resolved call graph (virtual calls by class hierarchy); recursion through application callbacks is outside it.'),
    'C26': dict(technique='definite-assignment dataflow over constructors, locals and the packet-position members',
                note='Complete for scalar and pointer members and locals of library classes; element contents of arrays and standard containers are not tracked.'),
    'C09': dict(technique='path-sensitive effect analysis from the chunk entry points against a table of allowed chunk type, mode and state combinations',
                note='Covers every path from the chunk entry points to the first effect; an effect is a store to protocol state, a call that can cause one, or a callback.'),
    'C14': dict(technique='path-sensitive typestate analysis of address stores plus must-dataflow of what the mobility check covers',
                note='Complete over stores to the address and interface members; the strength of the hash itself is assumed.'),
    'C17': dict(technique='path-sensitive typestate analysis of flow states, open flag, queue insertions and callback calls, with obligation lifting through callers',
                note='Complete over stores to and calls through the named members; callbacks an application sets again after closing are outside it.'),
    'C18': dict(technique='path-sensitive typestate analysis from the user-data chunk handler: facts left by each option, acceptance before data, exception answers',
                note='Complete over paths from the user-data handler; the application decides acceptance only through the accept function.'),

    'C21': dict(technique='path-sensitive analysis of window comparisons before data assembly and before marking fragments sent; interval analysis of congestion-window stores',
                note='Complete over the places that let a flow fill a packet, mark a fragment in flight or store the window; amounts are compared symbolically, not bounded.'),
    'C20': dict(technique='path-sensitive analysis of marking, counting, report assembly, report handling and congestion response',
                note='Complete over the named places; whether a platform passes the traffic class through unchanged is outside it.'),
    'C19': dict(technique='path-sensitive analysis of session and flow creation, the shutdown task and completion reports, with obligation lifting through asynchronous continuations',
                note='Complete over the places that create sessions and flows, end sessions and report completion; that queued packets are eventually written is the platform side.'),
    'C22': dict(technique='path-sensitive analysis of packet decryption: verification steps required on every accepting path, replay state effects on every refusing path',
                note='The cipher, HMAC and sequence-set primitives are taken to do what they are named for; every path through the decryption is covered.'),
    'C23': dict(technique='path-sensitive analysis of every keying path to completion or refusal, with the peer\'s flags and lengths as unknowns',
                note='That derived keys agree between two correct ends is outside it; that a key is complete only after every step succeeded is decided for every path.'),
    'C24': dict(technique='path-sensitive typestate analysis of timers and the ordered timer set, with obligation lifting to callers',
                note='Complete over the code of timers and timer lists; that a run loop calls it often enough is outside it.'),
    'C25': dict(technique='path-sensitive typestate analysis of the descriptor tables, the ready sets and the dispatch loops of each run loop',
                note='Complete over the code of the two run loops; what the operating system reports as ready is outside it.'),
    'C13': dict(technique='lock-set and typestate analysis of every function of the cross-thread task queue along all its paths',
                note='Complete over the code of the queue class; other threads are modelled by taking every read of a shared flag as a new unknown.'),
    'C12': dict(technique='effect analysis over the call graph from every worker-thread task and asynchronous completion; typestate of the members they may read',
                note='Complete over the resolved call graph; which thread drops the last reference to an object is outside it.'),
    'C10': dict(technique='path-sensitive typestate analysis of everything that ends a session, and of what the endpoint and each flow do when told, with the session present or absent in each table',
                note='Complete over the paths of the ending and told functions; that timers and lists stay untouched afterwards is shown by obligation lifting on the session state.'),

'C01': dict(technique='relational abstract interpretation (linear inequalities, checked loop invariants, function summaries)', note=''),
    'C02': dict(technique='relational abstract interpretation of the packet builder under its class invariant; path-sensitive typestate of every user of a builder', note='the size of an encoded number is taken to be at most 10 bytes'),
    'C16': dict(technique='path-sensitive typestate analysis of the write receipt, and of the send queue of a flow with obligation lifting',
                note='that the peer eventually acknowledges is outside it; the release is shown for every way a fragment can leave the queue'),
    'C15': dict(technique='path-sensitive pairing analysis of the three accounts of a fragment in flight, with obligation lifting',
                note='the flow reports stale bytes after its session ended; that is outside the statement'),
    'C11': dict(technique='path-sensitive ownership analysis: every function object that captures without owning is followed to where it is stored; typestate of the timer members and of the destructors',
                note='callback members that the application also sets, and the endpoint and platform adapter the application owns, are outside it'),
    'C29': dict(technique='path-sensitive typestate analysis of the synchronisation table, its destructor and the receive-order switch',
                note='an application that changes the receive order itself during a hold is outside it'),
    'C03': dict(technique='path-sensitive dataflow from every decode step to the uses of its outputs, answer and object; syntactic check that no answer is discarded',
                note='decode steps are recognised by their signature; a default deliberately kept when a handed-on output parameter is not written is outside it'),
    'C27': dict(technique='path-sensitive typestate analysis of the table of requests under way, of its users and of the closing step',
                note='requests whose command could not be written are reported to the caller as not made; a transport\'s write that closes the connection and still answers success is outside it'),
}
