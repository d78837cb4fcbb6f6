#!/usr/bin/env python3
"""The list of properties; writes properties.jsonl and MANIFEST.json.   tools/props.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'bfffs-core/src/'
PROPS = []      # (record, check) ; check = dict(technique, note) or a string, the reason it is not claimed


def p(id, title, statement, over, qtext, tests, files, mech, check, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    assert len(title) <= 80, title
    PROPS.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
                   'why_tests_cant': tests, 'anchors': a}, check))


WB = [C + 'writeback/writeback.rs']
p('C01', 'Writeback credit is conserved and never overdrawn',
  'However threads interleave, the credit available plus the credit held by borrowers always equals the amount the accountant was created with. '
  'A loan is granted only out of credit that is there, in exactly the amount asked for, and splitting, joining and halving a loan neither create nor lose any. '
  'Nothing but the accountant can create credit.',
  ['schedules', 'inputs'], 'all interleavings of borrow, repay and wakeup on any number of threads, all amounts',
  'The tests run a handful of fixed sequences on one thread; they never see an operation of another thread between the check of the supply and its update.',
  WB, [('supply is one atomic word changed by read-modify-write operations only', WB[0] + ' WriteBack'),
       ('Credit is opaque outside the module and panics when dropped non-null', WB[0] + ' Credit')],
  {'technique': 'abstract interpretation of MIR with interference-havocked atomics; conservation as polynomial identities per path; who-may-construct rule',
   'note': 'Every path of every method, for all amounts and all interleavings at the granularity of single atomic operations. Assumes that the future of a granted borrower is polled.'})
p('C02', 'Nobody waiting for writeback credit is forgotten, and they are served in order',
  'A borrower that has to wait is woken as soon as enough credit has been repaid, whatever the interleaving of the repayment with its going to sleep. '
  'Waiters are served first come, first served: a later request never overtakes an earlier waiting one.',
  ['schedules', 'histories'], 'all interleavings of borrowers and repayers',
  'The lost-wakeup window is a few instructions wide, and single-threaded tests cannot enter it.',
  WB, [('the sleepers bit in the supply word, the locked queue and the recheck after the bit is set', WB[0] + ' WriteBack::borrow'),
       ('repay wakes the front of the queue while it can be served', WB[0] + ' WriteBack::awaken')],
  {'technique': 'protocol/typestate analysis of MIR paths under interference (flag, lock, queue, wake)',
   'note': 'The protocol obligations are decided on every path and loop iteration for all interleavings; that the protocol implies the absence of lost wakeups is a paper argument in DESIGN.md.'})
LRU = [C + 'cache/lru.rs', C + 'cache/mod.rs']
p('C03', 'The block cache accounts for its size exactly and stays within its capacity',
  'After every operation the recorded size of the cache is the sum of the sizes of the blocks in it, and it does not exceed the configured capacity once an insertion has returned. '
  'Blocks are evicted only when there is otherwise no room.',
  ['histories', 'inputs'], 'all sequences of operations, block sizes and capacities',
  'The tests look at caches of two or three equal-sized blocks and at a few fixed sequences.',
  LRU, [('expire before insertion', LRU[0] + ' LruCache::insert'), ('size updated next to every store change', LRU[0] + ' LruCache::expire_one/remove/insert')],
  {'technique': 'shape analysis: abstract interpretation of MIR over symbolic doubly linked lists, sizes as polynomials',
   'note': 'All block sizes, capacities and positions on lists up to 4 entries (thorough: 5); longer lists rest on the locality argument in DESIGN.md.'})
p('C04', 'The block cache keeps its entries in order of use and its list well formed',
  'Each lookup, and each insertion of a block that was not there, makes its block the most recently used one and leaves the order of the others alone, and the block evicted is always the least recently used one. '
  'No sequence of operations makes the cache lose track of an entry or panic.',
  ['histories'], 'all sequences of cache operations',
  'List surgery goes wrong at particular positions (ends, neighbours, single entries), in sequences the tests do not visit.',
  LRU, [('intrusive doubly linked list through the hash map', LRU[0] + ' LruCache::mru/lru/fwd/revd')],
  {'technique': 'shape analysis: abstract interpretation of MIR over symbolic doubly linked lists',
   'note': 'Every operation on every position on lists up to 4 entries (thorough: 5), unknown keys, sizes and capacity.'})
p('C05', 'A cache lookup returns the block stored under that key, and only that',
  'A lookup returns the contents last stored under exactly that key, or nothing if it is not cached; it never returns the block of another key. '
  'Storing different contents under a key that is present is rejected rather than silently replacing or ignoring them.',
  ['inputs', 'histories'], 'all keys, contents and operation sequences',
  'The tests use a few keys of one kind; confusion of kinds of keys or of contents of equal length needs particular inputs.',
  LRU + [C + 'types.rs'], [('hash map keyed by Key, content comparison on reinsertion', LRU[0] + ' LruCache::insert')],
  {'technique': 'abstract interpretation of MIR over symbolic lists; decision table of the equality functions',
   'note': 'Lists up to 4 entries, all variants of keys and blocks; hashing is assumed to implement a map.'})

p('C06', 'A vdev specification means exactly the devices it lists, or is refused',
  'The specification given to "pool create" is accepted exactly if it is one or more paths, one or more mirrors, each of one or more paths, or one or more '
  'RAIDs, each with K, F and either one or more paths or one or more mirrors; words and numbers are not taken for paths, nor paths for words. What results '
  'lists every device, mirror and RAID, with its own K and F, once and in the order written. Any other text, a number out of range included, is an error and not a panic.',
  ['inputs'], 'all specifications',
  'The tests parse five specifications; a grammar that drops, reorders or nests devices wrongly, or that accepts or refuses too much, shows only on particular others.',
  ['bfffs/src/pool_create_parser.lalrpop', 'bfffs/src/bin/bfffs/pool_create_ast.rs'], [('LALR grammar with semantic actions', 'bfffs/src/pool_create_parser.lalrpop')],
  {'technique': 'automaton equivalence of the compiled grammar and its tokens with the documented language; abstract interpretation of MIR of the semantic actions',
   'note': 'The language is decided exactly. Meanings are decided for all sentences of up to 9 tokens and, by rules on the actions that build lists, for longer lists; the parser generator is trusted.'})

PS = [C + 'raid/prime_s.rs', C + 'raid/declust.rs']
p('C07', 'PRIME-S puts every chunk where the layout says, and finds it back',
  'For every valid array geometry and every data or parity chunk, id2loc gives the disk and offset defined by the PRIME-S layout: the layout is monotonic, '
  'no two chunks share a location and no two chunks of a stripe share a disk. loc2id inverts it: the chunk it names for a location is the one stored there. '
  'Exactly the valid geometries are accepted.',
  ['inputs', 'configurations'], 'all geometries (disks, stripe width, redundancy) and all chunks',
  'The tests check a few tiny geometries and a few hundred chunks; there are about a million geometries and unboundedly many chunks each.',
  PS, [('disk and offset formulas', PS[0] + ' PrimeS::id2loc'), ('inversion by enumerating the stripes on a disk', PS[0] + ' PrimeS::loc2id'),
       ('modular inverse and primality test', PS[0] + ' invmod, is_prime')],
  {'technique': 'abstract interpretation of MIR with polynomial normal forms over symbolic mixed-radix digits; loop invariants of the helpers',
   'note': 'The computed disk, offset and chunk are compared with the formulas of doc/prime-s.tex for all geometries and chunks at once. That those formulas are a bijection is taken from that document.'})
p('C08', 'The PRIME-S arithmetic never overflows',
  'For every geometry PrimeS accepts, including the largest, no computation of a location, of a chunk or of a step of an iterator overflows or truncates, '
  'so large arrays are laid out by the same rule as small ones.',
  ['inputs', 'configurations'], 'all geometries up to 215 disks and all chunks',
  'Overflow needs a wide array and a chunk late in a repetition; the tests use narrow arrays.',
  PS, [('widths chosen for the intermediate values', PS[0] + ' PrimeS, PrimeSIter'), ('limit on the number of disks', PS[0] + ' PrimeS::new')],
  {'technique': 'interval and polynomial-inequality analysis over MIR, every arithmetic operation and narrowing cast an obligation',
   'note': 'All valid geometries and chunks, every operation on every path; loops bounded by trip count times step. The extended Euclidean algorithm is excluded (its values are bounded by n).'})
p('C09', 'Iterating over a PRIME-S layout visits every chunk once, where it is stored',
  'An iterator from any chunk to any later one yields each data and parity chunk in between exactly once, in order, each with the location id2loc gives for it, and then ends for good.',
  ['inputs', 'histories'], 'all geometries, start and end chunks',
  'The incremental state of the iterator carries from stripe to stripe, iteration to iteration and repetition to repetition; the tests cross few of those borders in few geometries.',
  PS, [('offset table built on creation and updated by each step', PS[0] + ' PrimeSIter::new, next'), ('rollover of stripe, iteration and repetition', PS[0] + ' PrimeSIter::next')],
  {'technique': 'one-step simulation by abstract interpretation of MIR with polynomial normal forms (iterator state = function of the chunk)',
   'note': 'One step from every kind of chunk, all geometries; the fields after the step are compared with those of an iterator newly made for the successor, so induction covers every run.'})

CD = [C + 'raid/codec.rs', 'isa-l/src/lib.rs']
p('C10', 'Parity and reconstruction use one and the same Reed-Solomon code',
  'For every width and redundancy, parity is computed over all data columns with the rows of a code in which any K of the K+F columns determine the rest, '
  'and reconstruction of any set of at most F missing columns uses the inverse of exactly the surviving rows, so what was written is what is rebuilt. '
  'Data in scattered buffers is encoded as the same bytes in one buffer would be.',
  ['inputs', 'configurations'], 'all numbers of data and parity columns, all erasure patterns, all column contents and ways to scatter them',
  'The tests encode and decode a few widths with a few erasure patterns; a wrong row or table size shows only with particular patterns and widths.',
  CD, [('distribution matrix and encoding tables', CD[0] + ' Codec::new'), ('rows of the survivors inverted, rows of the missing data expanded', CD[0] + ' Codec::mk_decode_tables, decode'),
       ('encoding of scattered columns piece by piece', CD[0] + ' Codec::encodev, encodev_update')],
  {'technique': 'abstract interpretation of MIR with loop invariants over the contents of tables, ISA-L uninterpreted',
   'note': 'All K, F, erasure sets and buffers. That ISA-L computes what its manual says and that any K rows of its matrices are independent is assumed.'})
p('C11', 'ISA-L is called only with buffers large enough, and its failures are reported',
  'Whatever a caller of the bindings passes, the C library is never handed a buffer smaller than what it will read or write, arguments arrive in their positions, '
  'Reed-Solomon matrices are used only where they are invertible, and a failure of the library comes back as an error.',
  ['inputs'], 'all counts and buffer lengths', 'The tests pass buffers of the right size; a missing or weak precondition shows only with wrong ones, as memory corruption.',
  CD[1:], [('preconditions asserted in front of every foreign call', CD[1])],
  {'technique': 'abstract interpretation of MIR: preconditions of every foreign call implied by the path that reaches it',
   'note': 'All paths of all bindings, symbolic counts and lengths.'})
SG = [C + 'raid/sgcursor.rs']
p('C12', 'A cursor over scattered buffers yields every byte once, in order',
  'Whatever sequence of maxima a cursor is asked for, the pieces it returns are nonempty, no longer than asked for and concatenate to exactly the bytes of the scattered buffer; '
  'what it says about the next piece is true of that piece.',
  ['inputs', 'histories'], 'all segment lists, offsets and maxima', 'The tests walk two short lists; mistakes hide at the borders of segments.',
  SG, [('segment index and offset', SG[0] + ' SGCursor::next, peek, peek_len')],
  {'technique': 'abstract interpretation of MIR, inductive invariant over (segment, offset)',
   'note': 'One operation from every state and every maximum; induction covers all histories. Segments are assumed nonempty.'})

UT = [C + 'util.rs']
p('C13', 'Scatter-gather helpers keep every byte',
  'The checksum of a scattered buffer is that of its bytes in one piece. Padding a scattered buffer for writing returns the same bytes followed by the fewest zeros that fill the last block, '
  'in pieces of whole blocks, without copying a buffer that is whole already. The length of a list is the sum of its lengths; a list of zeros has exactly the length asked for. '
  'A range is called empty exactly when no key can lie in it by the order of its bounds.',
  ['inputs'], 'all lists of segments, lengths and contents, all kinds of bounds',
  'The tests pad and sum a few short lists; mistakes hide at multiples of the block size, empty segments, lengths beyond the shared zero region and unusual bounds.',
  UT, [('padding and copying', UT[0] + ' make_pad, copy_into_sglist and callers'), ('zero lists built from a shared region', UT[0] + ' zero_sglist'),
       ('bounds compared by kind', UT[0] + ' RangeBoundsExt')],
  {'technique': 'abstract interpretation of MIR over symbolic byte sequences with lengths as polynomials',
   'note': 'Any lengths and contents, lists up to 3 segments (thorough: 4).'})
PR = [C + 'property.rs']
p('C14', 'Dataset properties: their text and their typed form agree',
  'What a property prints as is what it parses from: names, values and sources round-trip, and every property has the default, the inheritance and the typed accessor its kind demands. '
  'Only legal values are accepted: read-only properties cannot be set, record sizes are powers of two from 4 kB to 1 MB, a boolean given without a value is on, and a value may itself contain an equals sign.',
  ['inputs', 'configurations'], 'all property kinds, values and strings',
  'The tests parse a handful of strings; a misprinted constant or name in a table of names or sizes escapes them.',
  PR, [('parsing of names, values and sources', PR[0] + ' TryFrom<&str>, FromStr'), ('printing', PR[0] + ' Display'),
       ('typed accessors, defaults and inheritance', PR[0] + ' Property, PropertyName')],
  {'technique': 'abstract interpretation of MIR with symbolic strings; parse and print tables extracted per variant and compared',
   'note': 'Every variant and every path of every function; numbers symbolic.'})


TY = [C + 'types.rs']
p('C15', 'Transaction numbers and block addresses are the numbers and pairs they denote',
  'Arithmetic on transaction numbers is that of the integers, and its checked form is None exactly when the result does not fit. The greatest transaction number leaves room for the end of a range. '
  'Transaction numbers and record ids are ordered as numbers and block addresses by cluster first and block second; the least value really is the least. '
  'The declared size of an address is its encoded size, and an identifier is the same sixteen bytes in every form it is written in.',
  ['inputs'], 'all transaction numbers, record ids, addresses and identifiers',
  'Everything that is kept by transaction number or address (what is written, erased or kept for a snapshot) rests on this order and arithmetic, and the tests look at small values only.',
  TY, [('arithmetic and order', TY[0] + ' TxgT, PBA, RID'), ('encoded forms', TY[0] + ' Uuid, TypicalSize')],
  {'technique': 'abstract interpretation of MIR with symbolic integers; comparison by exhaustive case split',
   'note': 'All values, every path of every operator.'})
p('C16', 'What is written to disk or to the wire is read back as it was',
  'For every type with a binary encoding, decoding the encoding of a value gives that value again and consumes exactly the bytes that were written, for every variant; '
  'a tag that no variant has is refused.',
  ['inputs'], 'all types with both a reader and a writer, all variants, all field values',
  'A mismatch between a hand-written or derived reader and its writer shows only for the variant concerned, after a restart.',
  [C + 'fs_tree.rs', C + 'tree/node.rs', C + 'types.rs', C + 'fs.rs', C + 'label.rs'],
  [('speedy Readable and Writable implementations', C + 'fs_tree.rs, tree/node.rs, types.rs and the modules of labels and messages')],
  {'technique': 'abstract interpretation of MIR: token stream of the writer fed to the reader, compared structurally per variant',
   'note': 'Every type, every variant, symbolic fields; sequences up to 2 elements. Assumes the primitives of the speedy crate.'})
p('C17', 'Keys of file systems and forest sort and range by object, kind and offset',
  'A key holds its object, kind and offset unchanged in fields of 64, 8 and 56 bits, most significant first, so keys sort by object, then kind, then offset. '
  'Every range of keys that is scanned or deleted contains exactly the keys it is named after. The hash in a key is of exactly the name it stands for, and fits its field. '
  'Tree identifiers count up and are never reused.',
  ['inputs'], 'all objects, kinds, offsets, names and range bounds',
  'Deleting or listing one file touches keys of its neighbours when a range is a key too long; the tests build keys of a few small objects.',
  [C + 'fs_tree.rs', C + 'database/mod.rs'],
  [('composition, accessors and ranges', C + 'fs_tree.rs FSKey'), ('hashes', C + 'fs_tree.rs ObjKey'), ('forest keys', C + 'database/mod.rs ForestKey, TreeID')],
  {'technique': 'abstract interpretation of MIR with keys as polynomials in object, kind and offset',
   'note': 'All objects, offsets (beyond 2^56 too) and names; kinds enumerated.'})

LB = [C + f for f in ('label.rs', 'vdev_file.rs', 'vdev_block.rs', 'mirror.rs', 'raid/vdev_raid.rs', 'raid/null_raid.rs', 'pool.rs', 'idml/idml.rs', 'database/database.rs')]
p('C18', 'A label is believed only if whole, and every layer finds its own part in it',
  'A device label is accepted only if its magic is right, its contents lie within what was read, and its checksum is that of its length and contents; whatever is found on disk, reading it never panics. '
  'What the writer makes is what the reader accepts, with the parts in the reverse of the order they were added. Both copies are tried before an import is refused. '
  'The labels, the space maps and the data of a device occupy disjoint places. Every layer adds its part exactly once, filled from its own fields, and hands the label to everyone below.',
  ['inputs', 'histories'], 'all disk contents, all label contents, all stacks of devices',
  'Torn or corrupted labels are not among the inputs of the tests, and one misplaced part makes a pool impossible to import after the fact.',
  LB, [('reader and writer', LB[0]), ('places of labels, space maps and data', LB[0] + ', ' + LB[1]), ('fallback to the second copy', LB[2] + ' Manager::read_label'),
       ('one part per layer', 'write_label and repair_label of every layer')],
  {'technique': 'abstract interpretation of MIR over symbolic byte strings; the image of the writer is substituted into the acceptance condition of the reader; call protocol of every layer',
   'note': 'All contents of up to 3 parts, all places as polynomials, every path of the layers. Assumes a streaming hash, and that the layers of one stack agree on its order.'})


p('C19', 'After a crash, the pool is what the last label vouches for',
 'A sync flushes every tree and the forest, and the free-space map, and syncs every disk, before a label is written; it syncs again between the two labels and after the second. '
 'All of it happens for one transaction, which nothing can modify meanwhile. When a step fails, nothing after it is done, the error is reported and the database remains dirty. '
 'Space freed is erased only after the labels that no longer refer to it are stable. Every layer passes sync, flush and advance to everyone below. A disk being rebuilt is labelled by the same protocol.',
 ['crash_points', 'fault_sequences', 'schedules'], 'all crash points of a sync, all failures of its steps, all stacks of devices',
 'No test cuts the power between two steps; one reordered step looks the same until a crash.',
 [C + 'database/database.rs', 'bfffs-core/src/idml/idml.rs', 'bfffs-core/src/ddml/ddml.rs', 'bfffs-core/src/pool.rs', 'bfffs-core/src/cluster.rs', 'bfffs-core/src/mirror.rs', 'bfffs-core/src/raid/'],
 [('order of a sync', C + 'database/database.rs sync_transaction_priv'), ('transaction lock and advance', 'bfffs-core/src/idml/idml.rs advance_transaction'),
  ('maps and erasure', 'bfffs-core/src/cluster.rs flush, advance_transaction'), ('rebuilding', 'bfffs-core/src/cluster.rs repair_mirror_step')],
 {'technique': 'abstract interpretation of MIR of the async state machines: step order on every path, lock extent, error propagation, call-graph closure of who may erase',
  'note': 'Every path of a sync through all layers. Assumes fsync makes what was written stable, and that a device syncs what was issued before. Two known findings about the copies of the free-space map.'})

p('C20', 'Every change belongs to one transaction, which the next sync commits',
 'What changes a file system, or the list of file systems, borrows its credit first, then opens one transaction, then marks the database dirty, then makes all its changes in that transaction, and '
 'holds it open until the last change is done. So no operation is cut in two by a sync, no sync misses a change that was acknowledged, and no operation waits for credit while it keeps a sync from running. '
 'Credit is used once or given back, on every error too. A file system is opened as one tree, shared by all its users. Trees are changed from nowhere else.',
 ['schedules', 'crash_points', 'fault_sequences'], 'all interleavings of operations and syncs, all failures within an operation',
 'Tests run operations one by one on mocks of everything below; a guard dropped too early, or a flag set too early, needs a sync at one moment to matter.',
 [C + 'database/database.rs', C + 'database/mod.rs', C + 'dataset/dataset.rs', C + 'cleaner.rs', C + 'fs.rs'],
 [('transactions', C + 'database/database.rs fswrite, create_fs, destroy_fs, open_filesystem, flush'), ('handles', C + 'dataset/dataset.rs ReadWriteDataset'),
  ('cleaning', C + 'cleaner.rs clean_now'), ('operations', C + 'fs.rs')],
 {'technique': 'abstract interpretation of MIR of the async state machines: order of credit, lock, flag, changes and unlock on every path; closed callers over the call graph; longest path of writes per operation',
  'note': 'Every path of each function that changes trees for a user. What a tree does with a change is not part of it. Assumes the lock excludes.'})


p('C21', 'A zone goes from empty to open, closed, dead and back, and its space is counted',
 'Every zone of a cluster is empty, open, closed or dead. Space is handed out only in an open zone, block by block without overlap or gap, within the zone\'s end as the device gives it, and to one writer. '
 'A zone is closed when a write does not fit, and the rest of it counts as freed. Freeing every block of a closed zone kills it, and it becomes empty again only once the device has erased it. '
 'The count of used space of the cluster, and the freed and allocated counts and the range of transactions of each zone, agree with what was handed out and freed. What is saved of the map is what is '
 'read back, a damaged map is reported, and each part that changed is saved.',
 ['histories', 'inputs', 'fault_sequences'], 'all sequences of writes, frees, syncs and restarts, in all zones',
 'Tests walk a few zones through some of their states with mocked devices; the boundary states (a zone wholly freed while it is open, the last zone of the device, a device that fails as it reopens a zone) are many.',
 [C + 'cluster.rs'],
 [('states', C + 'cluster.rs FreeSpaceMap'), ('sequence', C + 'cluster.rs Cluster')],
 {'technique': 'abstract interpretation of MIR: each method of the map from each state of a symbolic zone against the table of the life cycle; the cluster as the sequence of its calls on maps of up to three zones',
  'note': 'Counts are symbolic; maps of one zone among any, and of up to three zones for whole-map operations. Assumes the collections of the standard library and FixedBitSet do what they document.'})

p('C22', 'A record reads back as written, is repaired if it can be, and is freed once',
 'A record is packed only if that saves a block, summed, and written once; its pointer says where, how long, whether packed and with what sum. Reading it returns bytes only if their sum is that of the '
 'pointer: what is damaged is rebuilt from redundancy and returned only if that matches, else it is an integrity error, never a panic. Unpacking gives back what was packed. Popping or deleting a record '
 'frees exactly its own blocks, once, and takes it out of the cache first. The cache keeps a record under its own key only; while one task reads it, others wait, and whether that read succeeds, fails '
 'or is abandoned, they go on.',
 ['inputs', 'fault_sequences', 'schedules'], 'all records, compressions, kinds of damage, failures of the pool, and orders of tasks that want the same record',
 'Tests use mocked pools and a few records that are whole blocks; no test has padding in a damaged record, nor a read that fails or is dropped while others wait for it.',
 [C + 'ddml/ddml.rs', C + 'ddml/mod.rs', C + 'dml.rs', C + 'cache/mod.rs', C + 'idml/idml.rs'],
 [('ddml', C + 'ddml/ddml.rs DDML'), ('compression', C + 'dml.rs Compression'), ('reads under way', C + 'cache/mod.rs get_or_insert!')],
 {'technique': 'abstract interpretation of MIR with buffers as terms (disk contents, prefixes, packed forms, sums), driving the futures of the records layer over every outcome of the pool and the cache',
  'note': 'Assumes the compression libraries and byteshuffle invert what they did. The pool is a set of named operations; two waiters that read the same record after a failed read are allowed.'})

p('C23', 'A record id stands for its record until its last reference goes, wherever it is',
 'Every record that is put gets an id no other has had. The table from ids to records and the one from addresses to ids stay inverse: both are changed by each put, last drop and move, in the transaction '
 'at hand, and on an error that comes before them neither is. The space of a record is freed once, with its last reference; with references left, only the count changes. A record that is moved is written '
 'in full, as packed as it was, before its old place is freed and forgotten; a zone counts as clean only when all its records and all nodes of the tables have been moved out of it. What drops or moves a '
 'record is alone with its entry. The check of the tables says yes only if they are inverse and the blocks used add up.',
 ['histories', 'schedules', 'fault_sequences'], 'all sequences and interleavings of puts, drops and moves, and failures at any of their steps',
 'Tests drop or move one record at a time with mocked devices that do not fail; no test has a record that cannot be read, or a cleaner at work on the record that is dropped.',
 [C + 'idml/idml.rs', C + 'idml/mod.rs'],
 [('indirect layer', C + 'idml/idml.rs IDML')],
 {'technique': 'abstract interpretation of MIR: every path of each operation as the sequence of its effects on the tables, the records below and the cache, over every outcome of each; closed-caller analysis of the tables',
  'note': 'Known findings: delete, pop and move_record are not alone with the entry they change. Errors of the tables\' own nodes in the middle of a change are passed on, not undone.'})


p('C24', 'A tree is a sorted map, whatever its shape, flushes and cleaning',
 'Lookups, range queries, insertion, removal and range removal act on exactly the keys they name, each found in the one leaf whose bounds contain it, however nodes are split, merged, refilled, raised or '
 'lowered on the way: a split or a merge leaves every item and every child in one node, in order, under its least key. A node is changed only in memory under its write lock, and one read from '
 'disk gives its block back; locks pass down hand over hand. A flush writes every changed node once, children first, and leaves the contents as they are. Cleaning a zone rewrites every node in it, '
 'found by its transaction range, and no other. Credit that is no longer needed is repaid, none is lost.',
 ['inputs', 'histories', 'schedules'], 'all trees, keys, ranges, limits, and interleavings with flushes and cleaning',
 'Tests build a few small trees by hand; none has every split, merge and theft at each place in a node, or two tasks at work in the same nodes.',
 [C + 'tree/tree/mod.rs', C + 'tree/node.rs', C + 'tree/mod.rs'],
 [('nodes', C + 'tree/node.rs NodeData'), ('tree', C + 'tree/tree/mod.rs Tree')],
 {'technique': 'abstract interpretation of MIR, generic in key and value, with items and children as terms of a sequence algebra; asynchronous functions reduced to their sequence of locks, changes and calls',
  'note': 'One level at a time: each function is checked against what the others promise. Assumes a node has at least one child, BTreeMap and Vec, and exclusion by futures_locks. Not covered: Tree::create, credit_requirements, addresses, dump, check, and trees after a failed flush.'})


p('C25', 'A mirror keeps everything on every healthy disk and reads from any of them',
 'A write, a label or a zone operation reaches every healthy disk of a mirror once, and no other; it is reported done only if all of them did it, and never if there is none. A read succeeds if any healthy disk '
 'can serve it, each being tried at most once, with the same range and memory, and no disk that is missing, faulted or still being rebuilt is read. A disk becomes healthy only by being rebuilt; the one being '
 'rebuilt gets every block of a zone at its place, and its label after that. On import the newest label rules, and disks that are behind it are rebuilt, not read. A cluster of a single mirror passes all of this on.',
 ['configurations', 'fault_sequences', 'histories'], 'all mirrors in every combination of the states of their disks, all failures of the disks, every turn of the reads',
 'Tests use mock disks in a few fixed combinations; none has all combinations of states and of failures, or the index of the reads at its wrap.',
 [C + 'mirror.rs', C + 'raid/null_raid.rs'],
 [('states', C + 'mirror.rs Child'), ('reads', C + 'mirror.rs ReadAt, ReadSpacemap, ReadvAt')],
 {'technique': 'abstract interpretation of MIR on every mirror of up to three disks in every combination of states, with symbolic requests and results; asynchronous code reduced to its calls of the disks',
  'note': 'Every outcome of every operation on the 84 mirrors of up to three disks. Larger mirrors by the absence of any count of disks in the code. Assumes the disks do what they report. Errors of a disk do not change its state; nothing in the code does that.'})


p('C26', 'A RAID array stores stripes with their parity and reads them without lost disks',
 'A write stores every stripe it completes, every column and its parity at its place on its disk, and keeps the rest for later or for a flush, which pads it with zeros; it is reported done only if no stripe lacks '
 'more columns than can be done without, and fails only if more disks than that do. A read that succeeds has the right data in every block, whichever disks are lost and fail; within a stripe it succeeds while '
 'enough columns are left. The other versions offered on a wrong checksum are each right if their disks are, one for every choice of bad disks. Labels, spacemaps, zones and syncs reach every disk in service '
 'once, whichever are not. Zones of the array lie in one zone of each disk. The count of lost disks is right; the array is faulted when too many are. A mirror rebuilt has all that is stored.',
 ['inputs', 'configurations', 'fault_sequences'], 'all positions and lengths of reads and writes, all sets of disks lost before and failing during them, all geometries',
 'Tests use a few geometries with mock disks and fixed ranges; none has all combinations of range, lost disks and errors in the middle of a read, and the array is not in the part of the suite that runs here.',
 [C + 'raid/vdev_raid.rs'],
 [('columns', C + 'raid/vdev_raid.rs VdevRaid read_at, write_at, read_long'), ('stripe buffer', C + 'raid/vdev_raid.rs StripeBuffer'), ('children', C + 'raid/vdev_raid.rs Child')],
 {'technique': 'abstract interpretation of MIR over an enumerated set of layouts, ranges and lost disks, with symbolic contents and every result of a disk; an abstract memory of blocks of stripes interprets the calls of the disks and the codec',
  'note': 'Arrays of 3 to 5 disks (7 in the thorough run), chunks of 1 to 3 blocks, ranges over up to four stripes, every path of every case. Larger geometries by likeness only. Assumes the layout (C07), the codec (C10) and the mirrors (C25). A multi-stripe read of a healthy array may fail if a disk does (documented in the code).'})


p('C27', 'The name of a file system stands for one tree, from its creation to its end',
 'A new file system gets an identifier that no other has and an entry under its name in its parent, which it knows; if its name is taken, this is an error and nothing has changed. A path leads from the root file '
 'system through the entry of each name to the one named, and to its parent, and to nothing if a name is missing. Destroying a file system removes it and its entry and nothing else; one that has children is not '
 'destroyed, and nothing changes. Rewriting the tree of a file system keeps its name and place. A listing gives each child once, and can go on from the cookie of any of them; the list of all trees has each once.',
 ['inputs', 'histories', 'faults'], 'all names, sets of file systems, sequences of operations on them, and errors in the middle of each',
 'Tests create two or three file systems in one order, on a healthy device; none collides, fails in the middle, resumes a listing, or looks at what an operation that was refused left behind.',
 [C + 'database/mod.rs'],
 [('trees and their entries', C + 'database/mod.rs Forest, ForestKey, ForestValue'), ('creation', C + 'database/mod.rs Forest::insert_tree'), ('destruction', C + 'database/mod.rs Forest::unlink')],
 {'technique': 'abstract interpretation of MIR: every path of every operation as a sequence of reads and changes of an abstract sorted map, for every outcome of each',
  'note': 'Every path of the eight operations, paths of up to three names. Assumes that the tree of trees is a sorted map (C24), that names of one parent do not collide in their hashes, and that no two changes run at once.'})
p('C30', 'The pool finds each block in its cluster and counts the space that is used',
 'A block is written to one cluster, and the address returned names that cluster; it is read and freed there. The space used grows by what was written if the write succeeds and shrinks by what is freed, and by nothing '
 'else; the commands counted as under way are those that are. Sizes add up. Every cluster gets its share of the writes. The closed zones of all clusters are found, one after another. A device is attached to or faulted in '
 'the cluster that has it; if none does, this is reported. A rebuild stays in its cluster. The pool is as healthy as its worst cluster.',
 ['inputs', 'configurations', 'fault_sequences'], 'all numbers of clusters, addresses, lengths and results of the clusters, early or late',
 'The tests of the pool use one or two mock clusters and one path of each method; none compares the counters after a write that fails late, and they are not in the part of the suite that runs here.',
 [C + 'pool.rs'],
 [('addresses', C + 'pool.rs Pool::read, write, free'), ('counters', C + 'pool.rs Stats, Write::poll'), ('zones to clean', C + 'pool.rs Pool::find_closed_zone')],
 {'technique': 'abstract interpretation of MIR on pools of one to three clusters with symbolic counters, for every result of every call of a cluster and every pending poll',
  'note': 'Every path of every method, on 1 to 3 clusters. Which cluster is preferred is a heuristic and not judged, only that each can be. Assumes that futures are polled to their end. What is asked of every cluster alike (flush, sync, label) is in C18 and C19.'})
p('C28', 'What is acknowledged is on disk within about five seconds, without a sync',
 'A change that was acknowledged survives a crash that comes more than a few seconds later, without the user having asked for a sync.',
 ['schedules', 'crash_points'], 'all loads and all moments of a crash', 'Tests do not wait, and do not crash.',
 [C + 'database/mod.rs'], [('the syncer task', C + 'database/mod.rs Syncer')],
 'The bound is in seconds of wall-clock time, over timers, the scheduler and the speed of the disks, none of which a static argument can bound. That a commit, once begun, is atomic and complete is C18.')
p('C29', 'Every operation comes to an end: nothing waits for ever',
 'Every operation on a mounted file system returns, provided that the disks answer and there is memory: no two operations wait for each other, and the cleaner and the syncer do not starve the others.',
 ['schedules'], 'all interleavings of operations, the cleaner, the syncer and cache writeback', 'Tests run operations one at a time, or two.',
 [C + 'tree/tree/mod.rs', C + 'database/mod.rs'], [('lock coupling from the root downwards', C + 'tree/tree/mod.rs'), ('TxgLock', C + 'idml/idml.rs')],
 'Liveness under a fair scheduler: futures are polled, channels drained and timers fired by a runtime outside the source, and how long an operation waits depends on quantities known at run time only (free zones, dirty memory). '
 'Lost wakeups are decided where the protocol for them is written here, rather than in a library (C02).')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for r, _ in PROPS:
            f.write(json.dumps(r) + '\n')
    checks, na = [], []
    for r, c in PROPS:
        i = r['id']
        if isinstance(c, str):
            na.append({'property': i, 'reason': c})
        else:
            checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough',
                           'technique': 'static analysis: ' + c['technique'], 'level': 'other', 'level_note': c['note']})
    m = {'version': 1, 'setup_cmd': 'python3 -m engine.facts', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks read the MIR of the current /repo, dumped by the compiler driver in driver/. See DESIGN.md.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
