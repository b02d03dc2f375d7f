from .core import Job

def split(name, h, n=257, step=8, **kw):
    return [Job('%s[%d..%d)' % (name, i, min(i + step, n)), 'bits.c',
                defs=['H_' + h, 'CASE_LO=%d' % i, 'CASE_HI=%d' % min(i + step, n)],
                tus=['bits.c'], unwind=258, timeout=200, **kw)
            for i in range(0, n, step)]

slice_ = Job('bits.slice', 'bits.c', defs=['H_slice'], tus=['bits.c'], loops=['urkel_bits_slice'],
             solver='kissat', funcs=['urkel_bits_slice', 'urkel_bits_init'],
             fallback=split('bits.slice', 'slice'), cpu=8)
count = Job('bits.count', 'bits.c', defs=['H_count'], tus=['bits.c'], loops=['urkel_bits__count'],
            solver='kissat', funcs=['urkel_bits_count'],
            fallback=split('bits.count', 'count'), cpu=8)
has = Job('bits.has', 'bits.c', defs=['H_has'], tus=['bits.c'], cut=['urkel_bits_count'],
          stubs=['stub_count.c'], unwind=258, funcs=['urkel_bits_has'])
collide = Job('bits.collide', 'bits.c', defs=['H_collide'], tus=['bits.c'], cut=['urkel_bits_slice'],
              stubs=['stub_slice.c'], loops=['urkel_bits__count'],
              solver='kissat', funcs=['urkel_bits_collide'],
              fallback=split('bits.collide', 'collide', cut=['urkel_bits_slice'], stubs=['stub_slice.c']), cpu=8)
JOIN = [Job('bits.join[%d..%d)' % (i, i + 32), 'bits.c', defs=['H_join', 'RANGE_LO=%d' % i, 'RANGE_HI=%d' % (i + 32)],
            tus=['bits.c'], loops=['urkel_bits_join'], solver='kissat', funcs=['urkel_bits_join'], cpu=5,
            fallback=[Job('bits.join[%d..%d)' % (j, j + 8), 'bits.c', defs=['H_join', 'CASE_LO=%d' % j, 'CASE_HI=%d' % (j + 8)],
                          tus=['bits.c'], unwind=258, timeout=200, funcs=['urkel_bits_join']) for j in range(i, i + 32, 8)])
        for i in range(0, 256, 32)]
split_ = Job('bits.split', 'bits.c', defs=['H_split'], tus=['bits.c'], cut=['urkel_bits_slice'],
             stubs=['stub_slice.c'], unwind=34, funcs=['urkel_bits_split'])
codec = Job('bits.codec', 'bits.c', defs=['H_codec'], tus=['bits.c'], unwind=34,
            funcs=['urkel_bits_size', 'urkel_bits_write', 'urkel_bits_read'])
read = Job('bits.read', 'bits.c', defs=['H_read'], tus=['bits.c'], unwind=34, funcs=['urkel_bits_read'])

lemma = [Job('bits.lemma/' + n, 'bits_lemma.c', defs=['L_' + n], tus=[], unwind=258, funcs=['urkel_get_bit'] if n == 'bit' else [], cpu=3, solver='kissat', split=[])
         for n in ('bit', 'slice', 'join', 'has', 'count')]
ALGEBRA = [slice_, count, has, collide, split_] + JOIN + lemma
CODEC = [codec, read]
