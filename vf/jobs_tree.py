from .core import Job
REC = {'get': ('urkel_tree_get', 'stub_get'), 'insert': ('urkel_tree_insert', 'stub_insert'),
       'remove': ('urkel_tree_remove', 'stub_remove'), 'prove': ('urkel_tree_prove', 'stub_prove'),
       'write': ('urkel_tree_write', 'stub_write')}
KIND = ['null', 'internal', 'leaf', 'hash']


HEAVY = {('insert', 1): 9, ('insert', 2): 8, ('remove', 1): 10, ('remove', 3): 7}
SPLIT = ['a leaf stays on the path', 'every other key', 'a subtree stays at the pos|32 bytes of contents', 'the key now has|the key is gone|succeeds only for']


def step(op, sel, extra=(), name=None, **kw):
    if (op, sel) in HEAVY:
        kw.update(split=SPLIT, solver='kissat', cpu=HEAVY[op, sel])
    return Job(name or 'tree.%s/%s' % (op, KIND[sel]), 'tree_step.c', defs=['OP_' + op, 'SEL=%d' % sel, 'union=struct'] + list(extra),
               replace=[REC[op]], stubs=['tree_entry.c'], tus=['nodes.c'], cut=['urkel_node_create_leaf','urkel_node_destroy','urkel_node_value_equals','urkel_node_hash'], unwind=34, flags=['--memory-leak-check'],
               funcs=[REC[op][0]], timeout=300, **kw)


GET = [step('get', i) for i in range(4)]
INSERT = [step('insert', i) for i in range(4)]
REMOVE = [step('remove', i) for i in (0, 2, 3)] + [step('remove', 1, ['SIDE=%d' % b], name='tree.remove/internal,side%d' % b) for b in (0, 1)]
PROVE = [step('prove', i, **(dict(solver='kissat', split=[]) if i == 2 else {})) for i in range(4)]
WRITE = [step('write', i) for i in range(4)]
