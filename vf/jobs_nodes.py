from .core import Job


def n(op, extra=(), name=None, replace=(), **kw):
    kw.setdefault('unwind', 34)
    return Job(name or 'nodes.' + op, 'nodes_h.c', defs=['OP_' + op, 'union=struct'] + list(extra), tus=['bits.c'], replace=list(replace),
               stubs=['nodes_entry.c'] if replace else [], flags=['--memory-leak-check'] if kw.pop('leak', True) else [], **kw)


destroy = n('destroy', replace=[('urkel_node_destroy', 'stub_destroy')], funcs=['urkel_node_destroy'])
hash_ = n('hash', replace=[('urkel_node_hash', 'stub_hash')], funcs=['urkel_node_hash'], leak=False)
leaf = n('leaf', funcs=['urkel_node_create_leaf', 'urkel_node_store', 'urkel_node_key_equals', 'urkel_node_key_bits'])
valeq = n('valeq', extra=['VMAX=64'], unwind=66, funcs=['urkel_node_value_equals'], kind='bounded', bound='values of at most 64 bytes')
small = n('small', funcs=['urkel_node_to_hash', 'urkel_node_mark', 'urkel_node_save', 'urkel_node_hashed', 'urkel_node_init',
                          'urkel_node_create', 'urkel_node_create_internal', 'urkel_node_create_null', 'urkel_node_get'])
clear = n('clear', replace=[('urkel_node_destroy', 'stub_destroy')], funcs=['urkel_node_clear'])
pointer = n('pointer', funcs=['urkel_pointer_write', 'urkel_pointer_read', 'urkel_pointer_init'])
CODEC = [n('codec', ['LEAFN=0', 'PLO=%d' % a, 'PHI=%d' % b], name='nodes.codec/internal[%d..%d]' % (a, b),
           funcs=['urkel_node_write', 'urkel_node_read', 'urkel_node_size']) for a, b in ((0, 0), (1, 255), (256, 256))]
CODEC += [n('codec', ['LEAFN=1', 'PLO=0', 'PHI=0'], name='nodes.codec/leaf', funcs=['urkel_node_write', 'urkel_node_read', 'urkel_node_size'])]
read = n('read', funcs=['urkel_node_read'])
CORE = [destroy, hash_, leaf, valeq, small]
ALL = CORE + [clear, pointer, read] + CODEC
