from .core import Job


def c(op, funcs, defs=(), name=None, **kw):
    kw.setdefault('unwind', 8)
    return Job('cli.' + (name or op), 'cli_h.c', defs=['OP_' + op] + list(defs), funcs=['urkel_' + f for f in funcs], **kw)


ENC, DEC = ('urkel_base16_encode', 'stub_encode'), ('urkel_base16_decode', 'stub_decode')
ACTS = ['create', 'destroy', 'info', 'root', 'get', 'insert', 'remove', 'list', 'prove', 'verify']
encode = c('encode', ['base16_encode'], ['PMAX=0x7fffffff'], loops=['urkel_base16_encode'])
decode = c('decode', ['base16_decode'], ['PMAX=0x7fffffff', 'STRLEN_STUB'], loops=['urkel_base16_decode'])
decodeb = c('decodeb', ['base16_decode'], ['NB=64', 'STRLEN_STUB'], unwind=66, kind='bounded', bound='strings of at most 64 characters', name='decode_complete')
table = c('table', ['base16_table'])
print_ = c('print', ['base16_print'], replace=[ENC], flags=['--memory-leak-check'])
decode32 = c('decode32', ['base16_decode32'], replace=[DEC])
MAIN = [c('main', ['main'], ['ACTION=%d' % i], name='main_' + a, replace=[('urkel_base16_print', 'stub_print')], flags=['--memory-leak-check'],
          **(dict(kind='bounded', bound='databases of at most two pairs') if a in ('info', 'list') else {})) for i, a in enumerate(ACTS)]
def OPTS(na, acts=ACTS): return [c('options', ['options_init', 'options_clear'], ['ACTION=%d' % i, 'NA=%d' % na], name='options_%s/%d' % (a, na), replace=[DEC], kind='bounded', bound='at most %d arguments, each of at most two characters or from a list' % (na - 1), unwind=12) for i, a in enumerate(ACTS) if a in acts]


CLI = [encode, decode, decodeb, table, print_, decode32] + MAIN


def jobs(tier):
    return CLI + (OPTS(4, ['insert', 'list']) if tier == 'quick' else OPTS(6))
