from .core import Job
REP = [('urkel_tree_get', 'stub_get'), ('urkel_tree_insert', 'stub_insert'), ('urkel_tree_remove', 'stub_remove'), ('urkel_tree_prove', 'stub_prove'), ('urkel_tree_write', 'stub_write')]
FUNCS = dict(open=['urkel_open'], close=['urkel_close'], destroy=['urkel_destroy', 'urkel__corrupt'], root=['urkel_root'], hash=['urkel_hash'], inject=['urkel_inject'],
             create=['urkel_tx_create'], txdestroy=['urkel_tx_destroy'], clear=['urkel_tx_clear'], txroot=['urkel_tx_root'], txinject=['urkel_tx_inject'], txget=['urkel_tx_get'],
             txhas=['urkel_tx_has'], txinsert=['urkel_tx_insert'], txremove=['urkel_tx_remove'], txprove=['urkel_tx_prove'], txcommit=['urkel_tx_commit', 'urkel_tree_commit'],
             wrap=['urkel_get', 'urkel_has', 'urkel_insert', 'urkel_remove', 'urkel_prove'], verify=['urkel_verify'],
             itercreate=['urkel_iter_create'], iterate=['urkel_iterate', 'urkel_iter_create'], iterdestroy=['urkel_iter_destroy', 'urkel_tx_destroy'], iternext=['urkel_iter_next'])


def api(op):
    rep = REP + ([('urkel_tx_create', 'stub_create')] if op in ('wrap', 'iterate') else []) + ([('urkel_iter_seek', 'stub_seek')] if op == 'iternext' else [])
    defs = ['OP_' + op, 'union=struct']
    return Job('api.' + op, 'api.c', defs=defs, replace=rep, unwind=516 if op == 'iterdestroy' else 34,
               flags=['--memory-leak-check'] if not op.startswith('itern') and op != 'iterdestroy' else [], loops={'iternext': ['urkel_iter_next'], 'iterdestroy': ['urkel_iter_destroy']}.get(op), funcs=FUNCS[op])


A = {op: api(op) for op in FUNCS}
ALL = list(A.values())
