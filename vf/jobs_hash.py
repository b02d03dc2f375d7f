from .core import Job


def h(op, replace=(), **kw):
    kw.setdefault('unwind', 18)
    return Job(kw.pop('name', 'blake2b.' + op), 'hash_h.c', defs=['OP_' + op] + kw.pop('extra', []), replace=list(replace), **kw)


COMP = [('urkel_blake2b_compress', 'stub_compress')]
COMPRESS = [h('compress', [('urkel_rotr64', 'stub_rotr')], name='blake2b.compress/round%d' % i, extra=['RND=%d' % i], funcs=['urkel_blake2b_compress'], solver='kissat', split=[], timeout=400, cpu=4) for i in range(12)]
rotr = h('rotr', funcs=['urkel_rotr64'])
update = h('update', COMP, loops=['urkel_blake2b_update'], unwind=130, solver='kissat', split=[], funcs=['urkel_blake2b_update', 'urkel_blake2b_increment'], cpu=4)
final = h('final', COMP, unwind=130, funcs=['urkel_blake2b_final', 'urkel_blake2b_increment'])
init = h('init', [('urkel_blake2b_update', 'stub_update')], unwind=130, funcs=['urkel_blake2b_init'])
BLAKE = COMPRESS + [rotr, update, final, init]
