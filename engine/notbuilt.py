"""reasons for properties that static analysis could decide here but for which no check is registered"""
NB = {
'C28': 'Redirector reconnection depends on which of several timers and asynchronous stages is pending; no check is registered because the stages are application-visible callbacks whose order the analysis cannot bound.',
'C30': 'Equality of a writer with its reader is a relation between two traversals of unbounded data; constants alone would restate the source text.',
'C31': 'Balance of references across shared_ptr copies, raw retains and containers needs a heap model with counts; the local part (destruction while in use) is decided where it matters by C10 and C16.',
'C32': 'Needs invalidation of element references through arbitrary application re-entry; C24, C25 and C16 decide it for timers, descriptors and receipts, no general check is registered.',
}
