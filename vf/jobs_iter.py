from .core import Job
STACK = [Job('iter.' + n, 'iter_h.c', defs=['OP_stack', 'WHICH=%d' % i], unwind=8, funcs=['urkel_iter_' + n]) for i, n in enumerate(['push', 'pop', 'top'])]
seek = Job('iter.seek', 'iter_h.c', defs=['OP_seek', 'union=struct'], replace=[('urkel_iter_' + x, 'stub_' + x) for x in ('push', 'pop', 'top')],
           loops=['urkel_iter_seek'], unwind=8, funcs=['urkel_iter_seek'])
ITER = STACK + [seek]
