"""Which jobs, lemmas and native batteries decide each property."""
from . import jobs_bits as B, jobs_tree as T, jobs_nodes as N, jobs_proof as P, jobs_api as A, jobs_store as S, jobs_hash as H, jobs_util as U, jobs_iter as I, jobs_io as IO, jobs_cli as C

TRUSTED = ['CBMC 6.11 (goto-cc, goto-instrument, cbmc) and its C semantics for x86-64', 'SAT back ends: MiniSat 2.2.1, Kissat', 'Lean 4.33 kernel (lemma layer)',
           'vf/*.py (job construction; every job must reach its marked points)']
ASSUMED = ['malloc/realloc never return NULL (checked_malloc aborts otherwise)',
           'goto-cc compiles the same C text with -DURKEL_DEBUG and -DURKEL_TLS= (no thread-local storage); tree and node jobs also with -Dunion=struct: the two '
           'arms of urkel_node_s.u become disjoint members, so a read of one arm after a write of the other is an arbitrary value',
           '256-byte-bit identities: in tree jobs 32-byte hashes and prefix bits are opaque identities which must be moved as a whole',
           'prefix predicates (has, ext, under, slice, join) enter tree jobs as uninterpreted functions; each fact used about them is a theorem of lemmas/Bits.lean']

NOTE = 'Every obligation of the listed functions is discharged on the current source for all inputs; assumptions and trusted parts are in the evidence file. Native replay programs only confirm or add bounded evidence.'
NA = {
    'C22': 'Linearizability quantifies over interleavings of whole calls; sequential contracts of C functions (CBMC has no rely/guarantee or separation-logic concurrency) can decide the locking protocol (C13) but not this.',
}
PROPS = {}


def prop(pid, jobs, lemmas=(), battery=(), level='proof', trusted=(), assumed=(), note=''):
    PROPS[pid] = dict(jobs=jobs if callable(jobs) else (lambda tier, j=list(jobs): j), lemmas=list(lemmas), battery=list(battery),
                      level=level, trusted=list(trusted), assumed=list(assumed), note=note)


prop('C01', T.GET + T.INSERT + T.REMOVE + B.ALGEBRA + N.CORE, ['Bits'], ['db_map', 'rf_map'])
prop('C02', T.INSERT + T.REMOVE + [N.hash_, N.leaf, N.small] + [B.slice_, B.count, B.collide, B.split_] + B.JOIN, ['Bits', 'Tree'], ['db_root'])
prop('C07', N.CODEC + [N.pointer, N.read, S.meta] + B.CODEC, [], ['db_disk', 'codec_node', 'codec_meta', 'codec_bits'])
prop('C04', T.PROVE + [P.size, P.write, P.push, P.init, P.verify], ['Tree'], ['db_proof', 'rf_proof'])
prop('C05', [P.verify, B.has, B.count], ['Tree'], ['db_forge'])
prop('C06', P.CODEC + B.CODEC, [], ['db_forge', 'db_proof', 'codec_bits'])
prop('C13', A.ALL, [], ['db_api', 'rf_lock', 'threads'])
prop('C03', [N.hash_, U.internal, U.leaf, U.value], ['Tree'], ['codec_hash', 'db_root'])
prop('C08', [S.slab, S.flush, S.write, S.wmeta, S.commit, S.commit_sync, S.read] + S.WNODE + S.LOAD + T.WRITE, [], ['disk_layout', 'db_scaled', 'disk_short'])
prop('C09', [U.checksum, S.findmeta, S.recover, S.meta, S.findindex, S.init], [], ['disk_crash', 'disk_crash1'])
prop('C10', [A.A['itercreate'], A.A['iternext'], A.A['iterdestroy'], A.A['iterate']] + I.ITER, [], ['db_iter', 'rf_iter'])
prop('C11', [A.A[x] for x in ('inject', 'txinject', 'create', 'clear', 'txcommit')] + [S.hist, S.geth, S.rroot, S.commit], [], ['db_hist', 'disk_layout', 'rf_hist'])
prop('C12', [A.A['txcommit'], S.slab, S.flush, S.write, S.commit, S.openf] + T.WRITE, [], ['disk_fault', 'disk_fault1', 'rf_commit'])
prop('C14', IO.IO + IO.OPEN, [], ['disk_unit', 'disk_short', 'disk_short1'])
prop('C15', [S.openf, S.closef, S.evict, S.write] + S.FM, [], ['disk_handles'])
prop('C16', [S.path, U.parse, U.serialize, IO.normalize] + S.SMALL, [], ['disk_path'])
prop('C17', [S.destroy, A.A['destroy']], [], ['disk_destroy'])
prop('C18', H.BLAKE + [U.raw, U.value, U.checksum], [], ['codec_hash'])
prop('C19', A.ALL, [], ['db_api', 'rf_err'])
prop('C21', C.jobs, [], ['cli_tool'])
prop('C20', [N.destroy, N.leaf, N.small, N.clear, P.clear, P.push] + T.INSERT + T.REMOVE + T.PROVE + T.WRITE + [S.init, S.openf, S.slab] + S.LOAD + [A.A[x] for x in A.FUNCS], [], ['db_mem', 'disk_path', 'rf_mem'])
LOCKF = [j for j in IO.WHOLE if 'lock' in j.name] + [IO.small]
prop('C23', [S.init, S.destroy] + S.SMALL + LOCKF, [], ['onelock', 'disk_destroy'],
     assumed=['record locks: F_SETLK with F_WRLCK succeeds only if no other process holds a lock on that inode, and is kept until it is released or the process ends'])
prop('C24', [S.commit_sync, S.write, S.flush, S.slab, IO.FILE[2], IO.FILE[4], IO.small] + T.WRITE + [A.A['txcommit']], [], ['disk_sync', 'disk_sync1'],
     assumed=['a successful fdatasync/fsync covers all earlier writes to that file'])
