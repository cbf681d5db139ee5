"""Development aid (not a check): compares the engine's denotation of a model with a real run."""
import sys, time, os, warnings
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, '/verif'); sys.path.insert(0, '/repo')
warnings.simplefilter('ignore')
import numpy as np
from sa.harness import *
from sa.evalt import *
from sa import denote as D

def analyse(cn, kw, mod='sureal.subjective_model', skw=None):
    c = Ctx()
    ds = c.dataset('list', 'scalar', inst_attrs={'ref_score': N(T.sym('refscore'))})
    X = c.arr('X', E, S, R, miss='prs')
    r = c.call(c.get('spec.stubs', 'ArrayReader'), ds, X)
    m = c.call(c.get(mod, cn), r)
    res = c.call(c.attr(m, 'run_modeling'), **{k: K(v) for k, v in (skw or kw).items()})
    return c, res

def norm(x):
    if isinstance(x, np.ndarray): return norm(x.tolist())
    if isinstance(x, (list, tuple)): return [norm(y) for y in x]
    if isinstance(x, (bool, np.bool_)): return int(x)
    if isinstance(x, (float, np.floating)):
        return D.MISS if x != x else float(x)
    if isinstance(x, np.integer): return int(x)
    return x

def check(cn, kw, seeds=3, mod='sureal.subjective_model'):
    t0 = time.time()
    c, res = analyse(cn, kw, mod)
    t1 = time.time()
    import importlib
    cls = getattr(importlib.import_module(mod), cn)
    for seed in range(seeds):
        sz = {'E': 4 + seed % 2, 'S': 5, 'R': 1 + seed % 2, 'C': 2}
        st = Structure(seed, dict(sz), loops=c.I.loops)
        # reference of each content = first two stimuli
        st.tables['dcid'] = lambda s, e: e % 2
        st.tables['cid'] = lambda s, k: k
        st.tables['refpath'] = lambda s, k: 1000 + k
        st.tables['dispath'] = lambda s, e: 1000 + e if e < 2 else 2000 + e
        st.tables['aid'] = lambda s, e: e
        st.tables['refscore'] = lambda s: 5.0
        pat = st
        Xv = np.zeros((sz['E'], sz['S'], sz['R']))
        def xval(s, e, q, r): return 1 + 4 * rnd(seed, 'x', e, q, r)
        def pv(s, e, q, r): return 0 if rnd(seed, 'm', e, q, r) < 0.15 else 1
        st.tables['X'] = xval; st.tables['prs'] = pv
        for e in range(sz['E']):
            for q in range(sz['S']):
                for r in range(sz['R']):
                    Xv[e, q, r] = xval(st, e, q, r) if pv(st, e, q, r) else np.nan
        from sureal.dataset_reader import RawDatasetReader
        class AR(RawDatasetReader):
            def __init__(self, d): self.dataset = d
            opinion_score_3darray = property(lambda self: Xv.copy())
            num_observers = property(lambda self: sz['S'])
        class Ds: pass
        d = Ds(); d.dataset_name='x'; d.yuv_fmt='yuv420p'; d.width=1; d.height=1; d.ref_score=5.0
        d.ref_videos=[{'content_id':k,'content_name':str(k),'path':'p%d'%(1000+k)} for k in range(2)]
        d.dis_videos=[{'content_id':e%2,'asset_id':e,'path':'p%d'%(1000+e if e<2 else 2000+e),'os':[1]*sz['S']} for e in range(sz['E'])]
        try:
            so = sys.stdout; sys.stdout = open(os.devnull, 'w')
            try: real = cls(AR(d)).run_modeling(**kw)
            finally: sys.stdout = so
        except Exception as x:
            print(cn, seed, 'REAL RAISES', type(x), x); continue
        nit = real.get('num_iter')
        for L in c.I.loops:
            if nit and os.environ.get('FIX'): st.t[L] = nit - 1
        cc = c.content(res)
        for ent in cc.ents:
            k = ent.key.v
            try:
                a = D.den(c, c.st, ent.val, st)
            except Opaque as o:
                print(cn, seed, k, 'OPAQUE', o); continue
            b = norm(real[k])
            df = D.diff_den(a, b, 1e-6)
            und = str(a).count('undef')
            if df or und: print(cn, seed, k, 'DIFF' if df else 'und', str(df)[:160], und)
    print(cn, kw, 'analysed %.1fs eval %.1fs' % (t1 - t0, time.time() - t1), flush=True)

if __name__ == '__main__':
    for a in sys.argv[1:]:
        n, _, kw = a.partition(':')
        check(n, eval(kw) if kw else {})
