from .core import Job
REP_R = [('urkel_read', 'stub_read'), ('urkel_proof_push', 'stub_push')]
REP_W = [('urkel_write', 'stub_write'), ('urkel_write16', 'stub_write16')]


def bounded(op, src, defs=(), counts=(0, 1, 2), unwind=258, **kw):
    """decides when the loop contract no longer attaches or no longer fits"""
    return [Job('proof.%s/%d nodes' % (op, k), src, defs=['OP_' + op, 'COUNT=%d' % k] + list(defs), kind='bounded', bound='%d proof nodes' % k, unwind=unwind,
                solver='kissat', split=[], **kw) for k in counts]


verify = Job('proof.verify', 'proof_h.c', defs=['OP_verify', 'memcmp=vf_memcmp'], loops=['urkel_proof_verify'], unwind=258, solver='kissat', split=['^verify: (accepts|a short|a coll)'], cpu=5, fallback=bounded('verify', 'proof_h.c', ['memcmp=vf_memcmp'], (0, 1, 2, 3)), funcs=['urkel_proof_verify', 'urkel_proof_is_sane'])
read = Job('proof.read', 'proof_codec.c', defs=['OP_read'], loops=['urkel_proof_read'], replace=REP_R,
           unwind=34, solver='kissat', split=[], cpu=5, fallback=bounded('read', 'proof_codec.c', counts=(2,), unwind=34, unwindset=['urkel_proof_read.0:3'], replace=REP_R), funcs=['urkel_proof_read', 'urkel_proof_init'])
size = Job('proof.size', 'proof_codec.c', defs=['OP_size'], loops=['urkel_proof_size'], unwind=258, solver='kissat', split=['exactly'], cpu=5, fallback=bounded('size', 'proof_codec.c'), funcs=['urkel_proof_size'])
write = Job('proof.write', 'proof_codec.c', defs=['OP_write'], loops=['urkel_proof_write'], replace=REP_W,
            unwind=258, solver='kissat', split=[], cpu=5, fallback=bounded('write', 'proof_codec.c', replace=REP_W), funcs=['urkel_proof_write', 'urkel_set_bit'])
push = Job('proof.push', 'proof_codec.c', defs=['OP_push'], unwind=34, flags=['--memory-leak-check'], funcs=['urkel_proof_push'])
init = Job('proof.init', 'proof_codec.c', defs=['OP_init'], unwind=34, funcs=['urkel_proof_init'])
clear = Job('proof.clear', 'proof_codec.c', defs=['OP_clear'], unwind=258, flags=['--memory-leak-check'], funcs=['urkel_proof_clear'])
CODEC = [read, size, write, push, init, clear]
FB = verify.fallback + read.fallback + size.fallback + write.fallback
