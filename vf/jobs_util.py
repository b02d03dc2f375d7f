from .core import Job


def u(op, funcs, **kw):
    kw.setdefault('unwind', 66)
    return Job('util.' + op, 'util_h.c', defs=['OP_' + op], funcs=['urkel_' + f for f in funcs], **kw)


internal = u('internal', ['hash_internal'])
leaf = u('leaf', ['hash_leaf'])
value = u('value', ['hash_value'])
raw = u('raw', ['hash_raw', 'hash_key'])
checksum = u('checksum', ['checksum'])
random = u('random', ['random_bytes'])
parse = u('parse', ['parse_u32'], solver='kissat', split=[], unwind=12)
serialize = u('serialize', ['serialize_u32'], loops=['urkel_serialize_u32'], solver='kissat', split=[], unwind=12)
HASH = [internal, leaf, value, raw, checksum]
