"""Loop contracts supplied from outside the source, attached by DFCC."""
import json, os, re
from . import core

EXPAND = r'''
#define U256 unsigned __CPROVER_bitvector[256]
#define W(p,i) ((U256)__builtin_bswap64(((const unsigned long*)(p))[i]) << (192-64*(i)))
#define LD(p) (W(p,0)|W(p,1)|W(p,2)|W(p,3))
#define Z ((U256)0)
#define MASKN(n) ((n)==0?Z:((~Z)<<(256-(n))))
#define SHL(v,s) ((s)<256?((v)<<(s)):Z)
#define SHR(v,s) ((s)<256?((v)>>(s)):Z)
#define BITAT(v,i) (((v)>>(255-(i)))&1)
#define FRAME_OK (TOPN->type <= 3 && TOPF->depth <= 256 && TOPF->node == TOPN && (TOPN->type != 3 || !TOPF->resolved) && (TOPF->resolved == 0 || TOPF->resolved == 1) && iter->stack_len >= 1 && iter->stack_len <= 2 * (unsigned long)TOPF->depth + 1 + TOPF->resolved && (TOPN->type != 1 || (TOPN->u.internal.left == LTOK && TOPN->u.internal.right == RTOK && TOPN->u.internal.prefix.size < 256 && TOPF->depth + TOPN->u.internal.prefix.size < 256)) && (TOPN->type != 0 || (TOPF->depth == 0 && (iter->stack_len == 1 || TOPF->resolved))) && (TOPN->type == 1 || TOPN->type == 3 || TOPF->child == -1) && TOPF->child >= -1 && TOPF->child <= (TOPN->type == 1 ? 1 : 0))
#define VFHEX(c) (((c) >= 48 && (c) <= 57) || ((c) >= 97 && (c) <= 102) || ((c) >= 65 && (c) <= 70))
#define VFNIB(c) ((c) <= 57 ? (c) - 48 : ((c) | 32) - 97 + 10)
#define VFCHR(n) ((n) < 10 ? 48 + (n) : 97 + (n) - 10)
#define ONEAT(i) (((U256)1)<<(255-(i)))
'''


def _xfer(var, pos, writing):
    """retry loop, then the loop over the parts"""
    # len > 0 inside the retry loop: the outer guard holds there
    base = ('GD <= L0 && len == L0 - GD && buf == BUF + GD && FPOS == POS0 + (long)GD && !STOPPED && SEEN == (WI < GD)'
            + (' && pos == POS0 + (long)GD' if pos else '') + ' && (!SEEN || SEENW == W0)')
    seen = 'SEENW'
    return [dict(assigns=var + ',GD,FPOS,STOPPED,SEEN,MYERRNO,' + seen, inv=base + ' && len > 0', dec=None),
            dict(assigns=var + ',buf,len,GD,FPOS,STOPPED,SEEN,MYERRNO,' + seen + (',pos' if pos else ''), inv=base, dec=None)]


# function -> dict(assigns, inv, dec, vars); the loop is the function's last one.
TEMPLATES = {
    'urkel_bits_slice': dict(
        assigns='i,j,__CPROVER_object_whole(out)',
        inv='i <= size && j == start + i && out->size == size && size == end - start && '
            'LD(out->data) == (SHL(LD(bits->data), start) & MASKN(i))',
        dec='end - j'),
    'urkel_bits__count': dict(
        assigns='i,index,depth,count',
        inv='i <= len && count == i && index == __CPROVER_loop_entry(index) + i && '
            'depth == __CPROVER_loop_entry(depth) + i && '
            '((SHL(LD(bits->data),__CPROVER_loop_entry(index)) ^ SHL(LD(key),__CPROVER_loop_entry(depth))) & MASKN(i)) == Z',
        dec='len - i'),
    'urkel_proof_verify': dict(
        assigns='i,depth,__CPROVER_object_whole(next),GI,GDEP,GTOK,GHASHED,GCHECKED,GREFUSED',
        inv='i <= proof->nodes_len && GI == i && GDEP == depth && depth <= 256 && GSTARTED && !GHASHED && !GCHECKED && !GREFUSED && *(const U256 *)next == GTOK',
        dec='i'),
    'urkel_proof_read': dict(
        assigns='i,data,len,size,__CPROVER_object_whole(&prefix),__CPROVER_object_whole(hash),proof->nodes_len,GPOS,GN,GPFX,GBAD,GP,GH0,GH1,GHN',
        inv='i <= count && GN == i && proof->nodes_len == i && GPOS >= 4 && GPOS <= TOTAL && data == BASE + GPOS && len == TOTAL - GPOS && !GPFX && !GBAD && GHN == 0',
        dec='count - i'),
    'urkel_proof_size': dict(
        assigns='i,size', inv='i <= proof->nodes_len && size == SBASE + i * CB + (i > J ? CA - CB : 0)', dec='proof->nodes_len - i'),
    'urkel_proof_write': dict(
        assigns='i,data,__CPROVER_object_whole(OUT),GPOS,GN,GPFX',
        inv='i <= proof->nodes_len && GN == i && GPOS == SBASE + i * CB + (i > J ? CA - CB : 0) && data == OUT + GPOS && !GPFX && GVAL && GF == 0 && '
            '(SB >= proof->nodes_len || ((OUT[4 + (SB >> 3)] >> (7 - (SB & 7))) & 1) == (SB < i && (SB == J ? CA : CB) > 32))',
        dec='proof->nodes_len - i'),
    'urkel_iter_next': dict(
        assigns='iter->node,SEEKRET,SEEKERR,__urkel_errno',
        inv='!FAILED_STORE && (SEEKRET != 1 || iter->node != LEAFN)', dec=None),
    'urkel_iter_destroy': dict(
        assigns='i,DESTROYED,KEEPD',
        inv='i <= iter->stack_len && DESTROYED == (J_ < i && RES_) && KEEPD == DESTROYED', dec='iter->stack_len - i'),
    'urkel_store_find_meta': [dict(
        assigns='size,*off,__CPROVER_object_whole(meta),CNT,LASTP,LASTV',
        inv='RDOK && !IOFAIL && size <= RLEN && RPOS + size == *off && *off == 38 * CNT && CNT <= CNT0 && NTRUNC == 0 && (QN < CNT || !QV)', dec='size'),
      dict(assigns='size,pos,*off,__CPROVER_object_whole(meta),RPOS,RLEN,RDOK,IOFAIL,CNT,LASTP,LASTV',
        inv='!IOFAIL && *off == 38 * CNT && CNT <= CNT0 && NTRUNC == 0 && (QN < CNT || !QV)', dec='*off')],
    'urkel_store_recover_state': dict(
        assigns='*index,found,off,__CPROVER_object_whole(path),__CPROVER_object_whole(meta),PI,FOUND,UNLFAIL,DONEF,NEXTI,FOFF',
        inv='*index == NEXTI && !DONEF && !UNLFAIL && *index <= I0 && FOUND == 2', dec='*index'),
    'urkel_store_read_history': dict(
        assigns='meta_ptr,root_ptr,__CPROVER_object_whole(&meta),__CPROVER_object_whole(&node),store->last_meta,CURM,CURH,GPTR,PENDING,BADREAD',
        inv='!BADREAD', dec=None),
    'urkel_blake2b_update': dict(
        assigns='in,len,ctx->t[0],ctx->t[1],__CPROVER_object_upto(ctx->h,64),GK,GH',
        inv='GK < 0x200000000000000 && len >= 1 && 128 * GK >= T0 && 128 * GK < T1 && len == T1 - 128 * GK && in == IN0 + (128 * GK - T0) && ctx->t[0] == 128 * GK && ctx->t[1] == 0 && ctx->h[HI] == GH',
        dec='len'),
    'urkel_serialize_u32': dict(
        assigns='i,num,__CPROVER_object_whole(out)',
        inv='i <= 10 && num == QU[10 - i] && out[10] == 0 && (WD < i || out[WD] == 48 + (int)RE[9 - WD])',
        dec='i'),
    'urkel_iter_seek': dict(
        assigns='iter->node,iter->stack_len,__CPROVER_object_whole(TOPF),__CPROVER_object_whole(TOPN),CH0,RES,RESFAIL,NPOP,NPUSH,__urkel_errno',
        inv='!RESFAIL && ENDED == 0 && iter->node == (void*)0 && iter->stack_len >= 1 && iter->stack_len <= 514 && (NPOP == 1 || FRAME_OK) && NPOP <= 2 && NDEST == (NPOP ? POPRES : 0) && (LEN0 == 0 ? (NPOP == 0 && NPUSH == 1) : NPOP >= 1) && (NPOP != 1 || NPUSH == 0)',
        dec=None),
    'urkel_fs_read': _xfer('nread', False, False),
    'urkel_fs_write': _xfer('nwrite', False, True),
    'urkel_fs_pread': _xfer('nread', True, False),
    'urkel_fs_pwrite': _xfer('nwrite', True, True),
    'urkel_fs__open': [dict(assigns='r,MYERRNO', inv='fd == CURFD && fd != -1', dec=None), dict(assigns='r,MYERRNO', inv='fd == CURFD && fd != -1', dec=None)],
    'urkel_fs_open': dict(assigns='fd,CURFD,NOPEN,MYERRNO', inv='CURFD == -1 && (NOPEN == 0 || MYERRNO == 4)', dec=None),
    'urkel_path_normalize': [dict(assigns='l', inv='l < LEN && l >= __CPROVER_loop_entry(l) && path[l] == 47', dec='LEN - l'),
      dict(assigns='w', inv='w >= 1 && w <= l', dec='w'),
      dict(assigns='l,w,__CPROVER_object_whole(path)', inv='w <= l && l <= LEN && path[LEN] == 0', dec='LEN - l'),
      dict(assigns='w', inv='w <= LEN', dec='w')],
    'urkel_base16_encode': dict(assigns='i,j,__CPROVER_object_whole(dst)',
        inv='i <= srclen && j == 2 * i && (SN == 0 || !(WI < i) || (dst[2*WI] == VFCHR(B0 >> 4) && dst[2*WI+1] == VFCHR(B0 & 15))) && (SN == 0 || src[WI] == B0)', dec='srclen - i'),
    'urkel_base16_decode': dict(assigns='i,j,z,__CPROVER_object_whole(dst)',
        inv='i <= srclen / 2 && j == 2 * i && (srclen < 2 || !(WI < i) || (z & 0x80) != 0 || (VFHEX(C0) && VFHEX(C1) && dst[WI] == VFNIB(C0) * 16 + VFNIB(C1)))', dec='srclen - i'),
    'urkel_bits_join': dict(
        assigns='i,j,__CPROVER_object_whole(out)',
        inv='j <= right->size && i == left->size + 1 + j && out->size == left->size + 1 + right->size && '
            '(LD(out->data) & MASKN(left->size + 1)) == ((LD(left->data) & MASKN(left->size)) | ((bit & 1) ? ONEAT(left->size) : Z)) && '
            'SHL(LD(out->data), left->size + 1) == (LD(right->data) & MASKN(j))',
        dec='right->size - j'),
}


def expand(e):
    import subprocess
    p = subprocess.run(['gcc', '-E', '-P', '-'], input=EXPAND + '\n' + e, text=True, capture_output=True)
    return ' '.join(p.stdout.split())


def apply(job, a, d):
    rc, out, _ = core.sh(['goto-instrument', '--show-loops', '--json-ui', a], cwd=d)
    rc2, sym, _ = core.sh(['goto-instrument', '--show-symbol-table', '--json-ui', a], cwd=d)
    names = set(re.findall(r'"name": "([^"]+)"', sym))
    funcs = []
    for fn in job.loops:
        t, base = TEMPLATES[fn], fn
        m = re.search(r'"(__CPROVER_file_local_\w+_%s)\.\d+"' % re.escape(fn), out)
        fn = m.group(1) if m else fn
        ids = sorted({int(m) for m in re.findall(r'"%s\.(\d+)"' % re.escape(fn), out)})
        if not ids:
            raise core.Tool('loop of %s not found' % fn)
        ts = t if isinstance(t, list) else [t]
        if len(ts) > 1 and len(ts) != len(ids):
            raise core.Tool('%s has %d loops, not %d' % (fn, len(ids), len(ts)))
        entry = []
        for i, t in zip(ids[-len(ts):], ts):
            words = set(re.findall(r'[A-Za-z_]\w*', t['inv'] + ' ' + t['assigns'] + ' ' + (t['dec'] or '')))
            smap = []
            for n in sorted(names):
                if n.startswith((fn + '::', base + '::')):
                    v = n.split('::')[-1]
                    if v in words and v not in [x.split(',')[0] for x in smap]:
                        smap.append('%s,%s' % (v, n))
            entry.append({'loop_id': str(i), 'assigns': t['assigns'],
                          'invariants': expand(t['inv']), **({'decreases': t['dec']} if t['dec'] else {}),
                          'symbol_map': ';'.join(smap)})
        funcs.append({fn: entry})
    p = os.path.join(d, 'lc.json')
    json.dump({'sources': [], 'functions': funcs, 'output': 'OUTPUT'}, open(p, 'w'))
    b = os.path.join(d, 'lc.gb')
    rc, out, _ = core.sh(['goto-instrument', '--no-malloc-may-fail', '--dfcc', 'main', '--apply-loop-contracts',
                          '--loop-contracts-file', p, a, b], cwd=d, timeout=120)
    if rc != 0:
        raise core.Tool('loop contract does not attach: ' + out[-1200:])
    return b
