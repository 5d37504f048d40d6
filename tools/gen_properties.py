#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so that the long JSON lines stay readable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
DEC, REC, SS, RP, QC, NM, LK, TB, PH, LB = ('src/decompose.rs', 'src/recompose.rs', 'src/stream_safe.rs', 'src/replace.rs',
    'src/quick_check.rs', 'src/normalize.rs', 'src/lookups.rs', 'src/tables.rs', 'src/perfect_hash.rs', 'src/lib.rs')
p('C01', 'NFD/NFKD streams equal the UAX #15 decomposition under every delivery schedule',
  "For every sequence of Unicode scalar values a source delivers, and however its deliveries, stalls, cut-offs and the consumer's pulls interleave, the NFD and NFKD adapters produce exactly the canonical (resp. compatibility) decomposition of what was delivered, in canonical order as UAX #15 (Unicode 16.0.0) defines it: nothing lost, duplicated, invented or out of order. At every instant the output so far is a prefix of that result, and once the source ends the result is complete.",
  ['inputs', 'schedules', 'histories'], 'every scalar-value sequence of any length; every cut-off point; every interleaving of source deliveries/stalls with consumer pulls',
  'The conformance file feeds short complete strings (at most 18 characters, combining runs of a few marks) and collects them at once; buffer spills, long runs with equal classes, cut-offs inside a run and pull-by-pull histories are never sampled.',
  [DEC, NM, LK, PH, TB], [('pending/ready buffer with stable sort on combining class', DEC), ('decompose', NM), ('canonical_combining_class', LK)],
  [('buffer', 'ready and pending (class, char) pairs', DEC), ('ready', 'range that may be emitted', DEC)], ['Iterator::next of nfd()/nfkd()'])
p('C02', 'NFC/NFKC streams equal the UAX #15 composition under every delivery schedule',
  "For every sequence of Unicode scalar values a source delivers, and however its deliveries, stalls, cut-offs and the consumer's pulls interleave, the NFC and NFKC adapters produce exactly the canonical composition (UAX #15, Unicode 16.0.0) of the canonical (resp. compatibility) decomposition of what was delivered. At every instant the output so far is a prefix of that result, and once the source ends the result is complete.",
  ['inputs', 'schedules', 'histories'], 'every scalar-value sequence of any length; every cut-off point; every interleaving of source deliveries/stalls with consumer pulls',
  'The conformance file holds short strings, each collected in one go; blocking by equal/lower classes after buffered marks, purge/compose alternation over many segments, aliasing code points and end of input in each internal phase are reached by a handful of cases at most.',
  [REC, DEC, NM, LK, PH, TB], [('composing/purging/finished state machine', REC), ('compose, compose_hangul', NM), ('composition_table', LK)],
  [('state', 'composing, purging or finished', REC), ('buffer', 'uncomposed marks awaiting emission', REC), ('composee', 'current starter', REC), ('last_ccc', 'class of the last uncomposed mark', REC)],
  ['Iterator::next of nfc()/nfkc()'])
p('C03', 'Stream-safe streams follow UAX15-D4 for every input and schedule',
  "The stream-safe adapter outputs exactly its input with a COMBINING GRAPHEME JOINER inserted where, and only where, the Stream-Safe Text Process (UAX15-D4) requires one, so its output never contains more than 30 consecutive non-starters in NFKD, input that already satisfies this passes unchanged, and a second application changes nothing. This holds at every instant for the characters delivered so far, however deliveries, stalls, gaps and pulls interleave.",
  ['inputs', 'schedules', 'histories'], 'every scalar-value sequence, run lengths of any size, characters whose decomposition mixes non-starters and starters; every pull history',
  'Unit tests use one mark repeated or one fixed list of marks; runs reaching the limit through characters that count for several non-starters, and resumption after an interruption, are not sampled.',
  [SS, TB, LK], [('classify_nonstarters and running count', SS), ('stream_safe_leading_nonstarters / trailing tables', TB)],
  [('nonstarter_count', 'non-starters since the last NFKD starter', SS), ('buffer', 'character held back by an inserted joiner', SS)], ['Iterator::next of stream_safe()'])
p('C04', 'CJK compatibility variant streams replace exactly the standardized ideographs',
  "The CJK-compatibility-variants adapter outputs every delivered character unchanged except the CJK compatibility ideographs with a standardized variation sequence (Unicode 16.0.0), each of which becomes its unified ideograph followed by its variation selector; the pair stays adjacent and in order however pulls, stalls and gaps fall between its halves. Every character outside that set, Hangul included, passes through.",
  ['inputs', 'schedules', 'histories'], 'all scalar values in every position; every interleaving of pulls with deliveries between the two halves of a pair',
  'The tests cover two of 1002 ideographs and one Hangul string, collected at once.',
  [RP, NM, LK, TB], [('one-character hold-back of the variation selector', RP), ('decompose_cjk_compat_variants', NM)], [('buffer', 'second half of a pair', RP)], ['Iterator::next of cjk_compat_variants()'])
p('C05', 'Adapters never read further ahead than the pending output needs',
  "An adapter asks its source for another character only while the characters already received do not settle its next output: the decomposing adapters wait for nothing beyond the first starter at or after that output, the composing adapters for nothing beyond the first starter that does not join the pending one, the stream-safe and variant adapters for nothing beyond the character the output stems from. Consequently a peer that waits for each settled output before sending more is never deadlocked, and on stream-safe input the read-ahead is bounded.",
  ['schedules', 'histories', 'inputs'], 'every input, every interleaving of a blocking source with pulls, and every stack of adapters',
  'No test observes how many characters the source was asked for; the fuzz target that does is not run and checks only one bound for one adapter.',
  [DEC, REC, SS, RP], [('ready range emitted before pulling more', DEC), ('purging before reading on', REC)], [('ready', 'what may be emitted without reading', DEC)], ['calls to the source iterator per output'])
p('C06', 'End of input is final, flushed, and not asked for again',
  "When the source reports its end, the decomposing and composing adapters deliver everything still held back, then report the end on every later call, and never ask a source that makes no fused promise again, even if it would resume. The variant and stream-safe adapters report one end for each end the source reports, after delivering everything held back, and continue without loss or duplication if the source resumes; over a source that promises to stay ended, every adapter stays ended.",
  ['schedules', 'histories', 'fault_sequences', 'inputs'], 'every placement of (temporary) ends in the stream, every number of calls after the end',
  'Every test uses a string source that stays ended and stops at the first end.',
  [DEC, REC, SS, RP], [('Fuse around the source', DEC), ('Finished state', REC), ('FusedIterator impls', DEC)], [('state', 'Finished(n)', REC)], ['Iterator::next after the end; source call counts'])
p('C07', 'Clones and displays are exact, independent snapshots',
  "A clone of an adapter taken at any instant yields exactly the output the original still has to deliver, and no operation on either, in any interleaving and including dropping one, affects the other. Displaying an adapter prints exactly its remaining output and leaves its state and its source untouched.",
  ['histories', 'schedules', 'inputs'], 'every instant of every stream, every interleaving of operations on any number of clones',
  'No test clones or displays a partly consumed adapter.',
  [DEC, REC, RP], [('derived Clone over buffer, state and source', REC), ('Display via clone', DEC)], [('buffer', 'cloned pending characters', DEC)], ['Clone::clone, Display::fmt, Iterator::next'])
p('C08', 'A failing output sink is reported, receives an exact prefix, and harms nothing',
  "If the writer an adapter is being displayed into fails (or unwinds) at any point, the failure is propagated, the writer has received exactly the prefix of the correct text up to the failure and nothing after it, and the adapter is unchanged, so that a later display or iteration still yields the complete remaining text.",
  ['fault_sequences', 'histories', 'inputs'], 'every failure position (byte or call), transient or permanent, error or unwinding, at every instant of the stream',
  'No test uses a writer that fails.',
  [DEC, REC, RP], [('write_char(..)? in Display::fmt', DEC)], (), ['fmt::Write calls, returned fmt::Result'])
p('C09', 'A source that unwinds mid-stream loses and duplicates nothing',
  "If the source unwinds instead of delivering, the unwinding propagates to the caller, and the adapter stays usable: continuing afterwards yields exactly the output it would have produced had that call to the source not happened, every character delivered before the fault being accounted for exactly once. This holds for faults at any call, repeatedly, and for clones taken afterwards.",
  ['fault_sequences', 'histories', 'inputs'], 'every set of source calls that unwind, at every phase of buffering and composing',
  'No test has a source that unwinds.',
  [DEC, REC, SS, RP], [('all state kept in the adapter between source calls', REC), ('buffer.take().or_else(source)', SS)], [('composee, last_ccc, buffer', 'state that must survive', REC)], ['Iterator::next after catch_unwind'])
p('C10', 'Memory follows the longest combining run, not the stream, and is released',
  "While streaming, the heap memory an adapter holds is bounded by the longest run of non-starters (after decomposition) it has met and not by the length of the stream, hence by a constant for stream-safe input. Dropping an adapter, or any clone, at any instant (including after a fault in its source or sink) releases everything it allocated.",
  ['histories', 'inputs', 'fault_sequences'], 'every stream, however long; every drop, cancellation or fault point',
  'No test measures memory or abandons a stream midway.',
  [DEC, REC], [('reset_buffer reuses the front of the buffer', DEC), ('buffer.clear() after purging', REC)], [('buffer', 'heap-spilling small vectors', DEC)], ['global allocator'])
p('C11', 'Heap exhaustion is harmless where no heap is needed and never corrupts output',
  "Quick checks, authoritative checks that the quick check decides, per-character functions, the stream-safe and the variant adapters complete correctly with no heap available at all. Where the normalizing adapters do need heap, a failed allocation at any point surfaces as the allocation failure alone: what was delivered is a correct prefix, every other stream and clone continues correctly, and dropping the failed adapter is safe and releases its memory.",
  ['fault_sequences', 'inputs', 'histories'], 'every allocation, alone or persistently failing, in every history',
  'No test makes an allocation fail.',
  [DEC, REC, QC, SS, RP, NM], [('inline small buffers (TinyVec)', DEC), ('allocation-free quick_check', QC)], [('buffer', 'spills to the heap beyond 4 entries', DEC)], ['global allocator, outputs'])
p('C12', 'Concurrent, re-entrant and migrating use never changes any answer',
  "Any number of threads may use the whole API at once (adapters, checks, and every per-character query, composition, combining class, mark and assignment status included), call it again from inside a source, writer or callback it is itself calling, and move or share streams between threads midway; every answer is the one an isolated caller gets, namely that of the Unicode 16.0.0 data, and repeating a call with the same argument repeats the answer.",
  ['schedules', 'histories', 'inputs'], 'every interleaving of any number of callers at every point where the library calls out, every nesting, every migration of a stream between threads',
  'Tests call each function on one thread, never nested and never interleaved; thread interleavings are not decided by the test runner.',
  [LB, DEC, REC, SS, RP, QC, NM, LK, PH, TB], [('no shared mutable state: const tables and by-value adapters', LK)], [('static tables', 'shared by all callers', TB)], ['all public functions'])
p('C13', 'Quick and authoritative checks agree with the delivered text at every cut-off',
  "For a text arriving as a stream and cut off anywhere, each quick check reports Yes only if what arrived is in the named form, No only if it is not, gives UAX #15's quick-check answer for the four standard forms (never Maybe for NFD and NFKD), and reads nothing after the end it was shown; each authoritative check is true exactly when what arrived is in the form (for the stream-safe ones: in NFC/NFD and with no more than 30 consecutive non-starters in NFKD). As the stream grows, No is never retracted and Maybe never returns to Yes, and a failed authoritative check never becomes true again.",
  ['histories', 'inputs', 'schedules'], 'every text, every cut-off point and growth history, every stall of the source',
  'Tests check complete conformance strings and four stream-safe strings; verdict histories over growing prefixes, and mixtures of long runs with composites, are not sampled.',
  [QC, TB, SS], [('quick_check', QC), ('qc_nfc, qc_nfkc, qc_nfd, qc_nfkd', TB), ('fallback comparison with the normalized stream', QC)], [('last_cc, nonstarter_count', 'running checks', QC)], ['is_*_quick, is_*'])
p('C14', 'Normalization resumes correctly from any checkpoint at a boundary',
  "A text may be cut in front of any character that has combining class 0 and quick-check value Yes for a form: normalizing the pieces separately and concatenating gives the same as normalizing the whole. So a job that commits output piecewise at such boundaries, and is killed and restarted any number of times at any instants with only committed output surviving, ends with exactly the output of an uninterrupted run; likewise for making text stream-safe and for variant replacement.",
  ['crash_points', 'histories', 'inputs'], 'every text, every choice of commit points among the boundaries, every sequence of crash instants',
  'No test splits a text or restarts.',
  [DEC, REC, SS, RP, QC, TB], [('quick-check tables and combining classes mark safe boundaries', TB), ('state reset at starters', REC)], [('composee, buffer', 'state that must not outlive a segment', REC)], ['nfX(), is_nfX_quick, canonical_combining_class'])
p('C15', 'Stacked adapters equal stage-by-stage processing and obey the normal-form laws',
  "Adapters stacked on one another in any order and depth, pulled lazily under any schedule, produce what applying the stages one after the other to the complete text produces. In particular each normal form is idempotent, NFC and NFD (NFKC and NFKD) determine each other, compatibility forms absorb canonical ones, normalizing keeps stream-safe text stream-safe, and making normalized text stream-safe keeps it normalized.",
  ['programs', 'inputs', 'schedules'], 'every stack of adapters, every text, every pull and stall history',
  'Tests stack adapters on fixed strings only (conformance columns, one stream-safe regression).',
  [LB, DEC, REC, SS, RP], [('adapters are themselves sources', LB)], (), ['Iterator::next of stacked adapters'])
p('C16', 'Per-character decomposition delivers in order and survives callback failures',
  "For every scalar value, the three per-character decomposition functions call the given callback once per character of the value's full canonical, full compatibility or standardized-variant decomposition (Unicode 16.0.0), in order and nothing else. If the callback unwinds at any of these calls, exactly the earlier ones have happened, none follows, and later or nested calls are unaffected.",
  ['inputs', 'fault_sequences'], 'all 1,112,064 scalar values; every callback call that may unwind or re-enter',
  'Conformance tests reach decompositions only through complete iterators; the callbacks in them never fail or re-enter.',
  [NM, LK, PH, TB], [('decompose, decompose_hangul', NM), ('*_fully_decomposed', LK)], (), ['decompose_canonical, decompose_compatible, decompose_cjk_compat_variants'])
p('C17', 'Every way of consuming an adapter yields the same text and honest size hints',
  "However an adapter is obtained (from a string slice, a single character, an iterator or its constructor) and consumed (step by step, skipping, short-circuiting and resuming, folding, collecting, counting, taking the last, displaying, in any mixture), the same remaining text is delivered. At every instant its size hint brackets the number of characters still to come, provided the source's does.",
  ['histories', 'inputs', 'programs'], 'every mixture of consumption methods at every instant, every honest size hint of the source',
  'Tests only collect whole strings; size hints are never examined.',
  [DEC, REC, RP, SS, LB], [('size_hint', DEC), ('provided Iterator methods over next', REC), ('UnicodeNormalization impls', LB)], (), ['Iterator methods, size_hint, Display'])
p('C18', 'Damage in transit stays confined to its segment and never crashes the library',
  "Whatever scalar values arrive, including text with flipped, lost, duplicated, swapped or truncated bytes decoded leniently, every adapter and check terminates without panicking, and non-empty text never becomes empty. Damage alters the output only between the nearest undamaged boundaries (a character of combining class 0 and quick-check value Yes for the form) around it: outside, output is what the undamaged text gives.",
  ['fault_sequences', 'inputs'], 'every text and every corruption, loss, duplication, reordering or truncation of its stored or transmitted bytes',
  'Tests feed only well-formed conformance text.',
  [DEC, REC, SS, RP, QC, LK, PH], [('segment-local buffering', DEC), ('key check after hashing', PH)], (), ['all adapters and checks'])
p('C19', 'Per-character lookups agree with the Unicode Character Database',
  "For every scalar value, combining class and combining-mark status equal those of the Unicode 16.0.0 data, and for every pair of scalar values the composition query yields the primary composite of the pair or nothing.",
  ['inputs'], 'all scalar values, all pairs', 'Tests sample a few code points; pairs are reached only through conformance strings.',
  [LK, PH, TB, NM], [('mph_lookup', PH)], (), ['canonical_combining_class, is_combining_mark, compose'])
p('C20', 'Assignment status agrees with the Unicode Character Database',
  "For every scalar value, the public-assigned query is true exactly if Unicode 16.0.0 assigns it a general category other than Unassigned and Private_Use.",
  ['inputs'], 'all scalar values', 'Tests sample about a hundred code points.', [TB], [('is_public_assigned', TB)], (), ['is_public_assigned'])
p('C21', 'The advertised Unicode version is the version of the data',
  "The advertised Unicode version is the one whose data every query and transformation uses.",
  ['configurations'], 'the one constant and all data tables', 'No test relates the constant to the tables.', [TB], [('UNICODE_VERSION', TB)], (), ['UNICODE_VERSION'])
p('C22', 'Builds with and without the standard library behave identically',
  "Every function gives the same result in the build with the standard library and in the no_std + alloc build.",
  ['configurations', 'inputs'], 'both configurations, all inputs', 'The tests run in both builds but compare neither beyond their samples.', [LB], [('cfg(feature = "std") only selects the prelude', LB)], (), ['all public functions'])
p('C23', 'Normalizing takes time linear in the text up to sorting within runs',
  "Normalizing or checking n characters takes O(n log r) steps, r being the longest run of non-starters, whatever the text.",
  ['inputs'], 'all texts', 'No test measures cost.', [DEC, REC, PH], [('reset_buffer, sort_pending', DEC)], (), ['running time'])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(x, ensure_ascii=False) + '\n' for x in P))
for x in P: assert len(x['title']) <= 80, (x['id'], len(x['title']))
