from .core import Job


def io(op, replace=(), extra=(), name=None, **kw):
    kw.setdefault('unwind', 8)
    return Job('io.' + (name or op), 'io_h.c', defs=['OP_' + op] + list(extra), replace=[('urkel_fs_' + a, 'stub_fs_' + b) for a, b in replace], **kw)


XFER = [io('xfer', extra=['WHICH=%d' % i], name='fs_' + n, loops=['urkel_fs_' + n], funcs=['urkel_fs_' + n]) for i, n in enumerate(['read', 'write', 'pread', 'pwrite'])]
FILE = [io('file', [('open', 'open'), ('write', 'write'), ('pread', 'pread'), ('fsync', 'sync'), ('fdatasync', 'sync')], ['WHICH=%d' % i, 'PMAX=0x7fffffff'], name='file_' + n, funcs=fs)
        for i, (n, fs) in enumerate([('open', ['urkel_file_open']), ('pread', ['urkel_file_pread']), ('write', ['urkel_file_write']), ('close', ['urkel_file_close']), ('sync', ['urkel_file_sync', 'urkel_file_datasync'])])]
WHOLE = [io('whole', [(x, x) for x in ('open', 'close', 'read', 'write', 'flock', 'fstat', 'stat')], ['WHICH=%d' % i], name=n, flags=['--memory-leak-check'], funcs=['urkel_fs_' + n]) for i, n in enumerate(['read_file', 'write_file', 'open_lock', 'close_lock'])]
small = io('small', funcs=['urkel_fs_ftruncate', 'urkel_fs_fsync', 'urkel_fs_fdatasync', 'urkel_fs_close'])
IO = XFER + FILE + WHOLE + [small]
OPEN = [io('open', [], ['WHICH=0'], name='fs__open', loops=['urkel_fs__open'], funcs=['urkel_fs__open', 'urkel_fs__flags_api_to_os', 'urkel_fs__mode_api_to_os']),
        io('open', [('_open', '_open')], ['WHICH=1'], name='fs_open', loops=['urkel_fs_open'], funcs=['urkel_fs_open'])]
OPEN[1].replace = [('urkel_fs__open', 'stub__open')]
normalize = io('normalize', extra=['PMAX=0x7fffffff'], name='path_normalize', loops=['urkel_path_normalize'], funcs=['urkel_path_normalize'])
