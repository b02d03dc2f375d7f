"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, stmt, over, text, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(obs), hook_needed=hook)))

p('C01', 'A tree is an exact map from 32-byte keys to values',
  'After any sequence of insertions and removals a lookup of any key returns exactly the value last inserted for it, byte for byte and with its exact size, or reports not-found if there is none. An operation on one key never changes what any other key yields, and a failed or no-op operation (same pair inserted again, removing an absent key, an unreadable node) changes no key at all.',
  ['inputs', 'histories'], 'all 2^256 keys, all values of 0..1023 bytes, all tree shapes and depths, all operation sequences, nodes in memory or on disk',
  'Tests insert a few thousand pseudo-random keys, whose prefixes are almost always short; long shared prefixes, splits at byte boundaries, depth 255 and 256-bit collisions are practically never produced.',
  ['src/tree.c', 'src/bits.c', 'src/nodes.c'],
  [('urkel_tree_get / urkel_tree_insert / urkel_tree_remove', 'src/tree.c'), ('prefix operations', 'src/bits.c'), ('node constructors and destructor', 'src/nodes.c')],
  [('node', 'radix-2 tree node with a bit prefix', 'src/nodes.h')], ['urkel_tx_get', 'urkel_tx_has', 'urkel_get'])
p('C02', 'The root hash depends only on the current key-value mapping',
  'Two trees (or transactions) holding the same mapping have the same root hash, whatever sequence of insertions, removals, commits and reopenings led there; an empty mapping always has the all-zero root. Every tree reached is the unique compressed tree of its mapping: each key lies on the path its bits dictate, every internal node has two non-empty sides, and its prefix is the full common run of bits.',
  ['histories', 'inputs'], 'all histories of insert/remove/commit/reopen over all keys and values',
  'Tests compare roots of a handful of orders of random keys; a wrong merge after a removal or a wrong split shows only for particular prefix lengths and sides.',
  ['src/tree.c', 'src/bits.c', 'src/nodes.c'],
  [('split on insert, merge on remove', 'src/tree.c urkel_tree_insert/urkel_tree_remove'), ('cached hashes', 'src/nodes.c urkel_node_hash')], (), ['urkel_root', 'urkel_tx_root'])
p('C03', 'Merkle values follow the documented hash format',
  'The root of every tree equals the value given by the documented construction: zero for the empty tree, a 0x00-prefixed hash of key and value hash for a leaf, and for an internal node a hash of its two children that also binds the prefix length and prefix bits whenever the prefix is non-empty. A cached hash is never stale.',
  ['inputs'], 'all keys, values, prefix lengths 0..255 and prefix contents, all children',
  'Tests pin a few roots; a deviation for particular prefix sizes (byte-aligned, longest) or a prefix bit left out of the hash is not sampled.',
  ['src/util.c', 'src/nodes.c', 'src/bits.c', 'src/blake2b.c'],
  [('urkel_hash_internal, urkel_hash_leaf, urkel_hash_value', 'src/util.c'), ('urkel_node_hash', 'src/nodes.c')], (), ['urkel_root', 'urkel_tx_root'])
p('C04', 'An honest proof always verifies and says what the tree says',
  'For every tree and every key the library can produce a proof (unless storage fails), the produced proof decodes and verifies against the root of that tree, and verification reports exactly the presence and the value the tree has for the key.',
  ['inputs', 'histories'], 'all trees, all keys, present and absent (dead end, short, collision), all path lengths 0..256, all values 0..1023 bytes',
  'Tests prove random keys in a random tree: no long prefixes, no path longer than a few dozen bits, no dead-end below the root, few value sizes.',
  ['src/tree.c', 'src/proof.c'],
  [('urkel_tree_prove', 'src/tree.c'), ('urkel_proof_write/urkel_proof_read/urkel_proof_verify', 'src/proof.c')], (), ['urkel_prove', 'urkel_tx_prove', 'urkel_verify'])
p('C05', 'No proof verifies for a claim the tree does not support',
  'If verification of any byte string against a root and a key succeeds, then the tree with that root maps the key to exactly the reported value, or does not contain it when absence is reported, assuming only that the hash function has no collisions. In particular proof parts that do not lie on the key\'s own path are rejected.',
  ['inputs'], 'all byte strings offered as proofs, all keys, all roots of real trees',
  'Forged proofs are an adversarial space; the tests only mutate nothing or check honest proofs.',
  ['src/proof.c', 'src/util.c'],
  [('urkel_proof_verify', 'src/proof.c'), ('domain separated hashing', 'src/util.c')], (), ['urkel_verify'])
p('C06', 'Proof decoding is total, strict and leaks nothing',
  'Decoding any byte string of any length terminates without reading outside it, without aborting and without leaking memory; it accepts only strings that are completely consumed and keep every length within its documented limit. Encoding followed by decoding gives back the same proof, and the announced size is exactly the number of bytes written.',
  ['inputs'], 'all byte strings of all lengths; all well-formed proofs with 0..256 nodes',
  'No test feeds malformed proofs, truncated at each position or with extreme counts.',
  ['src/proof.c', 'src/bits.c', 'src/tree.c'],
  [('urkel_proof_read, urkel_proof_write, urkel_proof_size', 'src/proof.c'), ('urkel_bits_read/urkel_bits_write', 'src/bits.c'), ('urkel_verify', 'src/tree.c')], (), ['urkel_verify', 'urkel_prove'])
p('C07', 'Nodes, pointers and meta records survive a disk round trip exactly',
  'Every node, file pointer and meta record that is written decodes to exactly what was written, for every prefix length, file index, position and size within the documented limits, and occupies exactly the announced number of bytes. Decoding arbitrary bytes never aborts, never reads past the given length, and never yields a prefix or size beyond its limit.',
  ['inputs'], 'all prefixes of 0..256 bits, all file indices up to 0x7fff, positions below 2^31, sizes up to 1023; all byte strings',
  'A tree in the tests never has prefixes beyond a few dozen bits, more than one file, or positions beyond some megabytes.',
  ['src/nodes.c', 'src/store.c', 'src/bits.c'],
  [('urkel_pointer_write/read, urkel_node_write/read/size', 'src/nodes.c'), ('urkel_meta_write/read', 'src/store.c')], (), ['urkel_open', 'urkel_get'])
p('C08', 'A successful commit makes exactly the new tree readable from disk',
  'After a successful commit every key-value pair of the transaction is readable back from the files at the recorded positions, unchanged, together with the new root, also across buffer growth, intermediate flushes and roll-over to new data files. Bytes reach the files completely, in order, each file at most at its size limit, and no already written byte is overwritten.',
  ['histories', 'inputs'], 'all trees, all value sizes, all fill levels of the write buffer and of the current file, all numbers of roll-overs',
  'Roll-over needs 2 GB of data and an intermediate flush 64 MB; the tests never reach either, and values of 256 bytes or more only in one place.',
  ['src/store.c', 'src/tree.c', 'src/nodes.c'],
  [('urkel_tree_write', 'src/tree.c'), ('urkel_slab_write, urkel_store_flush, urkel_store_write, urkel_store_write_meta, urkel_store_commit', 'src/store.c')],
  [('slab', 'write buffer with file position bookkeeping', 'src/store.c')], ['urkel_tx_commit', 'urkel_open'])
p('C09', 'Opening after a crash recovers the newest intact commit',
  'Whatever suffix of the data files is missing or torn when the database is opened, the state recovered is that of the newest meta record that is completely present with a correct checksum, everything after it is cut off, and appended data continues from there. Older data is never altered, and a file that cannot be read is never deleted.',
  ['crash_points', 'fault_sequences'], 'all lengths and contents of the tail of the last files, all numbers of files without a meta record, all read failures during recovery',
  'The tests cut one byte off once; the recovery scan over slab boundaries, several files and torn records is not exercised.',
  ['src/store.c'],
  [('urkel_store_find_meta, urkel_store_recover_state, urkel_store_find_index', 'src/store.c'), ('keyed checksum of urkel_meta_read', 'src/store.c')], (), ['urkel_open'])
p('C10', 'Iteration yields every pair exactly once, in ascending key order',
  'Iterating over a transaction yields each key-value pair of its tree exactly once, in strictly ascending byte order of keys, with the exact value and size, and then reports the end; a storage failure is reported as such and not as the end. No tree is too deep for it.',
  ['inputs', 'histories'], 'all trees of all shapes and depths up to 256, in memory or on disk',
  'Tests iterate trees of random keys, whose depth stays near log2 of their size.',
  ['src/tree.c'], [('urkel_iter_seek, urkel_iter_next, urkel_iter_push/pop', 'src/tree.c')], (), ['urkel_iter_next'])
p('C11', 'Every committed root stays readable; nothing else is accepted',
  'A transaction or tree can be set to any root that was committed earlier in the same database, also after reopening, and then reads exactly the mapping committed under that root; unknown roots are refused without side effects. Clearing a transaction returns it to the current root of its tree, and moving one transaction or the tree never alters what another transaction reads.',
  ['histories'], 'all histories of commits, injections, clears and reopenings, all root values',
  'Tests revert once to a recent root; chains of metas, repeated searches from the middle of the chain and cache hits are not distinguished.',
  ['src/store.c', 'src/tree.c'],
  [('urkel_store_read_history, urkel_cache_*', 'src/store.c'), ('urkel_inject, urkel_tx_inject, urkel_tx_clear, urkel_tx_create', 'src/tree.c')], (), ['urkel_inject', 'urkel_tx_inject', 'urkel_tx_clear'])
p('C12', 'A failed commit or write leaves a consistent, usable database',
  'When writing fails at any point during a commit, the commit reports failure, the committed root and everything committed before stay as they were, and the transaction keeps its own mapping: reading it in between gives that mapping or reports a storage failure, never anything else. Retrying later succeeds with correct data, and what is then read from the files is right.',
  ['fault_sequences', 'histories'], 'a failure or short write at any write, of any flush, in any commit, any number of times',
  'The tests never make a write fail.',
  ['src/store.c', 'src/tree.c', 'src/io_posix.c'],
  [('urkel_tree_write/urkel_tree_commit', 'src/tree.c'), ('urkel_store_flush, urkel_store_commit', 'src/store.c'), ('urkel_file_write', 'src/io_posix.c')], (), ['urkel_tx_commit', 'urkel_insert'])
p('C13', 'Every public operation follows the locking protocol',
  'Every public operation on a tree, transaction or iterator holds the lock of each object whose shared state it reads or writes, in exclusive mode where it writes, releases every lock it took on every path including failures, never takes a lock it already holds, and always takes a transaction\'s lock before the tree\'s.',
  ['schedules', 'inputs'], 'all public operations, all their paths, all results of the operations below them',
  'The tests run one thread; a missing, leaked or mis-ordered lock shows only under contention or on an error path.',
  ['src/tree.c', 'src/io_posix.c'],
  [('urkel_rwlock_* calls around each public operation', 'src/tree.c')], (), ['urkel_tx_*', 'urkel_*'])
p('C14', 'File reads and writes transfer exactly the requested bytes',
  'Reading or writing through the file layer either transfers exactly the requested bytes at the requested position, however the operating system splits or interrupts the transfer, or reports failure; end of file inside a request is a failure. A failed append leaves the file and its recorded size as they were, and a successful one is visible to subsequent reads.',
  ['fault_sequences', 'inputs'], 'all sequences of partial transfers, interruptions, ends of file and errors; all sizes and positions; mapped and unmapped files',
  'The kernel never returns short counts or EINTR for the small regular files of the tests.',
  ['src/io_posix.c', 'src/io.c'],
  [('urkel_fs_read/write/pread/pwrite, urkel_file_pread/write', 'src/io_posix.c')], (), ['urkel_get', 'urkel_tx_commit'])
p('C15', 'Data file handles stay valid, bounded and unique',
  'At most one handle per data file is kept, lookups return the handle of exactly the requested file, the number of handles kept after a commit stays within its limit, and the file being appended to is never closed while in use. Every handle is closed exactly once at the latest when the database is closed.',
  ['histories', 'schedules'], 'all numbers of data files, all orders of opening and eviction, two readers opening the same file',
  'A database in the tests never has more than one data file.',
  ['src/store.c'], [('urkel_filemap_*, urkel_store_open_file, urkel_store_close_file, urkel_store_evict', 'src/store.c')], (), ['urkel_get', 'urkel_close'])
p('C16', 'File names and path handling are exact and bounded',
  'File numbers convert to ten-digit names and back without loss, any other name is rejected, and no path handled by the library overruns its buffer, whatever the length of the directory name; over-long names are refused.',
  ['inputs', 'configurations'], 'all 32-bit numbers, all strings offered as names, all directory path lengths',
  'Tests use one short relative path and file number 1.',
  ['src/util.c', 'src/store.c', 'src/io_posix.c', 'src/internal.c'],
  [('urkel_serialize_u32, urkel_parse_u32', 'src/util.c'), ('urkel_store_path, urkel_store_path_index, urkel_store_init_prefix', 'src/store.c')], (), ['urkel_open', 'urkel_destroy'])
p('C17', 'Destroying a database removes only the database\'s own files',
  'Destroying a database unlinks only its numbered data files, its meta file and its lock file inside the given directory, and then the directory only if it is empty; any other file is left alone and makes the call fail. It does nothing when the lock cannot be obtained.',
  ['inputs', 'configurations', 'fault_sequences'], 'all directory contents, all failures of the calls it makes',
  'The tests destroy only directories holding exactly the database.',
  ['src/store.c', 'src/tree.c'], [('urkel_store_destroy', 'src/store.c'), ('urkel_parse_u32', 'src/util.c')], (), ['urkel_destroy'])
p('C18', 'Hashing is BLAKE2b-256 for every message and every way of feeding it',
  'The hash of a byte string is its BLAKE2b-256 digest, independent of how the string is cut into pieces when fed to the hash, for all lengths including multiples of the block size and the empty string.',
  ['inputs'], 'all messages of all lengths, all chunkings',
  'Tests hash a few short strings; block boundary and buffering mistakes need specific lengths and chunkings.',
  ['src/blake2b.c', 'src/util.c'], [('urkel_blake2b_update/final/compress', 'src/blake2b.c'), ('urkel_hash_raw and friends', 'src/util.c')], (), ['urkel_hash', 'urkel_root'])
p('C19', 'Each public call reports success or a specific error and fills outputs',
  'Every public call either succeeds, with every output parameter set as documented, or returns failure with the documented error code, leaving the database as it was; oversized values, unknown roots, absent keys and invalid proofs each give their own error. No public call aborts the process for any argument a caller may pass.',
  ['inputs', 'histories'], 'all public calls, all arguments in their documented domain, all results of the operations below them',
  'The tests check error codes of a few calls only.',
  ['src/tree.c', 'include/urkel.h'], [('public functions and urkel_errno', 'src/tree.c')], (), ['urkel_errno', 'return values'])
p('C20', 'Memory is owned exactly once: nothing leaks, nothing is used after free',
  'For every operation and every outcome, each allocation made on its behalf is either reachable from the object returned to the user or freed exactly once, nodes dropped from a tree are freed and nodes kept are not, and no access leaves the object it belongs to.',
  ['histories', 'fault_sequences'], 'all node kinds, shapes and outcomes of all tree, node, proof and iterator operations',
  'valgrind checks only the paths the tests run, none of which is an error path.',
  ['src/nodes.c', 'src/tree.c', 'src/proof.c', 'src/store.c'],
  [('urkel_node_destroy/urkel_node_clear and ownership transfer in urkel_tree_*', 'src/nodes.c, src/tree.c'), ('urkel_proof_clear', 'src/proof.c')], (), ['all public calls'])
p('C21', 'The command line tool passes keys, values and proofs through exactly',
  'The command line tool accepts exactly the hexadecimal strings of even length that fit their destination, decodes them to the bytes they denote, and prints every byte string as hex that decodes back to it. Each action performs exactly the library operation it names, on the key, value, root or proof given, prints exactly what that returned, and exits with success exactly if it succeeded.',
  ['inputs'], 'all byte strings, all character strings offered as hex, upper and lower case, all orders of options and arguments, all outcomes of the library',
  'The command line tool has no tests.',
  ['src/urkel.c'], [('urkel_base16_encode, urkel_base16_decode, urkel_options_init, urkel_main', 'src/urkel.c')], (), ['urkel command'])
p('C22', 'Concurrent use is linearizable',
  'Whatever threads do concurrently with transactions of one tree, every call behaves as if the calls had happened one at a time in some order.',
  ['schedules'], 'all interleavings of all public calls', 'The tests run one thread.',
  ['src/tree.c', 'src/store.c'], [('reader-writer locks', 'src/tree.c, src/store.c')], (), ['all public calls'])
p('C23', 'The directory is used only while its lock is held',
  'Opening or destroying a database reads and changes the contents of its directory only while holding the exclusive lock on its lock file, and an open database keeps it until it is closed. The lock is taken without waiting, failure to get it makes the call fail without touching anything, the lock counts only if the locked file is still the one the name denotes, and only the holder removes the lock file. So no two processes use one database at the same time.',
  ['schedules', 'crash_points', 'fault_sequences'], 'all outcomes of every step of open and destroy, all interleavings of two processes opening, closing and destroying', 'The tests use one process.',
  ['src/store.c', 'src/io.c', 'src/io_posix.c'], [('urkel_store_init, urkel_store_clear, urkel_store_destroy', 'src/store.c'), ('urkel_fs_open_lock, urkel_fs_close_lock', 'src/io.c'), ('urkel_fs_flock', 'src/io_posix.c')], (), ['urkel_open', 'urkel_close', 'urkel_destroy'])
p('C24', 'A synchronous commit succeeds only after everything it wrote is synced',
  'When the library is built with synchronous commits (URKEL_FSYNC), a commit reports success only after every byte it wrote, in every data file it touched, has been followed by a successful sync of that file; if a sync fails the commit fails and the committed state does not move.',
  ['fault_sequences', 'histories'], 'all histories of commits, roll-overs to new data files within a commit, failing syncs and retries', 'The tests never build with URKEL_FSYNC and no sync ever fails in them.',
  ['src/store.c', 'src/io_posix.c'], [('urkel_store_sync, urkel_store_write, urkel_store_flush, urkel_store_commit', 'src/store.c'), ('urkel_file_datasync, urkel_fs_fdatasync', 'src/io_posix.c')], (), ['urkel_tx_commit'])
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(d, 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
