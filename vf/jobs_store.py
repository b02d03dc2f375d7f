from .core import Job


def s(op, replace=(), extra=(), name=None, tus=(), leak=False, **kw):
    kw.setdefault('unwind', 8)
    return Job(name or 'store.' + op, 'store_h.c', defs=['OP_' + op, 'union=struct'] + list(extra), tus=list(tus), replace=list(replace),
               flags=['--memory-leak-check'] if leak else [], **kw)


R = {k: ('urkel_' + f, g) for k, f, g in [
    ('write', 'store_write', 'stub_write'), ('open', 'store_open_file', 'stub_open'), ('close', 'store_close_file', 'stub_close'),
    ('slab', 'slab_write', 'stub_slab_write'), ('wmeta', 'store_write_meta', 'stub_write_meta'), ('flush', 'store_flush', 'stub_flush'),
    ('cins', 'cache_insert', 'stub_cache_insert'), ('evict', 'store_evict', 'stub_evict'), ('read', 'store_read', 'stub_read'),
    ('rnode', 'store_read_node', 'stub_read_node'), ('retr', 'store_retrieve', 'stub_retrieve'), ('clook', 'cache_lookup', 'stub_cache_lookup'),
    ('rmeta', 'store_read_meta', 'stub_read_meta'), ('rroot', 'store_read_root', 'stub_read_root'), ('hist', 'store_read_history', 'stub_read_history'),
    ('fmeta', 'store_find_meta', 'stub_find_meta'), ('pathi', 'store_path_index', 'stub_path_index'), ('path', 'store_path', 'stub_path'),
    ('flook', 'filemap_lookup', 'stub_lookup'), ('fins', 'filemap_insert', 'stub_insert'), ('frem', 'filemap_remove', 'stub_remove')]}
slab = s('slabwrite', leak=True, funcs=['urkel_slab_write'])
flush = s('flush', [R['write']], leak=True, funcs=['urkel_store_flush'], kind='bounded', bound='at most 5 pieces (file roll-overs) between two successful flushes')
write = s('storewrite', [R['open'], R['close']], funcs=['urkel_store_write', 'urkel_store_sync'])
wmeta = s('writemeta', [R['slab']], tus=['nodes.c', 'bits.c'], unwind=34, solver='kissat', split=[], funcs=['urkel_store_write_meta', 'urkel_meta_write', 'urkel_meta_read', 'urkel_node_to_hash'])
commit = s('commit', [R['wmeta'], R['flush'], R['cins'], R['evict']], funcs=['urkel_store_commit'])
commit_sync = s('commit', [R['wmeta'], R['flush'], R['cins'], R['evict']], ['URKEL_FSYNC'], name='store.commit/fsync', funcs=['urkel_store_commit'])
meta = s('metacodec', tus=['nodes.c', 'bits.c'], unwind=34, funcs=['urkel_meta_write', 'urkel_meta_read'])
read = s('read', [R['open']], funcs=['urkel_store_read'])
LOAD = [s('load', [R['read']], ['LOAD=%d' % i], name='store.load/' + n, tus=['nodes.c', 'bits.c'], cut=['urkel_node_read'], unwind=34, leak=True, funcs=[f])
        for i, (n, f) in enumerate([('node', 'urkel_store_read_node'), ('resolve', 'urkel_store_resolve'), ('value', 'urkel_store_retrieve'), ('meta', 'urkel_store_read_meta')])]
rroot = s('readroot', [R['rnode'], R['retr'], R['cins']], leak=True, funcs=['urkel_store_read_root'])
hist = s('history', [R['clook'], R['rmeta'], R['rroot']], unwind=34, loops=['urkel_store_read_history'], funcs=['urkel_store_read_history'])
geth = s('gethistory', [R['hist']], leak=True, funcs=['urkel_store_has_history', 'urkel_store_get_history', 'urkel_store_get_root', 'urkel_store_root_hash', 'urkel_store_needs_flush'])
WNODE = [s('writenode', [R['slab']], ['WHAT=%d' % i], name='store.write/' + n, tus=['nodes.c', 'bits.c'], cut=['urkel_node_write'], unwind=34, funcs=[f]) for i, (n, f) in enumerate([('node', 'urkel_store_write_node'), ('value', 'urkel_store_write_value')])]


def s2(op, replace=(), extra=(), name=None, **kw):
    j = s(op, replace, extra, name, **kw)
    j.src = 'store2_h.c'
    return j


def rep(*xs):
    return [('urkel_' + a, 'stub_' + b) for a, b in xs]


path = s2('path', leak=True, unwind=13, funcs=['urkel_store_path', 'urkel_store_path_index'])
openf = s2('openfile', [R['flook'], R['fins'], R['evict'], R['pathi']], leak=True, funcs=['urkel_store_open_file'])
closef = s2('closefile', [R['frem']], leak=True, funcs=['urkel_store_close_file'])
evict = s2("evict", [R['close']] + rep(('rng_rand', 'rand')), extra=['EXTRA=2'], scale=[('store.c', 'MAX_OPEN_FILES', '3')], unwind=10, funcs=['urkel_store_evict'], kind='bounded', bound='limit of open files scaled to 3, at most two files over it')
FM = [s2('filemap', extra=['FM=%d' % i, 'NMAP=6'], name='store.filemap/' + n, leak=True, unwind=9, funcs=['urkel_filemap_' + n], kind='bounded', bound='file numbers below 6')
      for i, n in enumerate(['lookup', 'insert', 'remove', 'clear'])]
findmeta = s2('findmeta', rep(('meta_read', 'meta_read')), loops=['urkel_store_find_meta'], funcs=['urkel_store_find_meta'], unwind=34, split=['looks at every', 'place of a record', 'valid record', 'looks only'])
recover = s2('recover', [R['pathi'], R['fmeta']], loops=['urkel_store_recover_state'], funcs=['urkel_store_recover_state', 'urkel_meta_init'], unwind=34, split=[])
findindex = s2('findindex', leak=True, funcs=['urkel_store_find_index'], kind='bounded', bound='directories of at most 5 entries')
init = s2('init', [R['path'], R['open'], R['rroot']] + rep(('store_init_prefix', 'init_prefix'), ('store_init_meta', 'init_meta'), ('store_find_index', 'find_index'), ('store_init_lock', 'init_lock'),
          ('store_recover_state', 'recover'), ('filemap_init', 'fm_init'), ('filemap_clear', 'fm_clear'), ('cache_init', 'cache_init'), ('cache_clear', 'cache_clear'), ('rng_init', 'rng_init')),
          leak=True, unwind=10, funcs=['urkel_store_init', 'urkel_store_open', 'urkel_store_close', 'urkel_store_clear', 'urkel_slab_init', 'urkel_slab_clear'])
SMALL = [s2('small', [R['path']], ['SMALL=%d' % i], name='store.' + n, leak=True, unwind=6, funcs=['urkel_store_' + n]) for i, n in enumerate(['init_prefix', 'init_meta', 'init_lock'])]
destroy = s2('destroy', extra=['PLMAX=3'], leak=True, unwind=14, funcs=['urkel_store_destroy'], kind='bounded', bound='directories of at most 3 entries, directory names of at most 3 bytes')
