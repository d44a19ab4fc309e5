"""C02: the training set of every K-fold split is exactly what purge and embargo leave."""
from vc.contract import contract
from contracts.c01 import setting, CONTAINERS

for c in CONTAINERS:
    @contract('C02', f'training {c}')
    def _(V, c=c):
        n, K, s, call, G, p, e, fwd = setting(V, c, check=False)
        x = V.splits(call)
        if x is None: return
        lo, hi = x.run(x.test)
        a, b = lo(x.k), hi(x.k)
        V.ensure('training data left', x.nonempty(x.train))
        V.ensure('training positions in order without repeats', x.ordered(x.train))
        V.ensure('test positions in order without repeats', x.ordered(x.test))
        m = x.size(x.test)
        if c != 'none':
            V.lemma('the last label of the fold is its largest', V.eq(V.largest(m, lambda j: G(x.item(x.test, j))), G(b)), light=True)
            V.lemma('the first label of the fold is its smallest', V.eq(V.smallest(m, lambda j: G(x.item(x.test, j))), G(a)), light=True)
        inside = x.has(x.train)
        for i in V.forall('i', 0, n):
            g = G(i)
            purged = V.and_(g > G(b), g <= G(b) + p)
            embargoed = V.and_(g < G(a), g >= G(a) - e)
            keep = V.and_(V.or_(i < a, i > b), V.not_(purged), V.not_(embargoed))
            if fwd: keep = V.and_(keep, i < a)
            V.ensure('trained on exactly when allowed', V.iff(inside(i), keep))
        for i in V.forall('j', 0, x.size(x.train) if not V.symbolic else n):
            V.ensure('training positions are samples', V.implies(inside(i), V.and_(0 <= i, i < n)) if V.symbolic else 0 <= x.item(x.train, i) < n)
