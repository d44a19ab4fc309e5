"""C01: the test folds of the time-aware K-fold splitter partition the samples along group boundaries."""
from vc.contract import contract
KF = 'quantfinlib.train_test_split.kfoldpe:TimeAwareKFold'
CONTAINERS = ['none', 'array', 'series', 'dates', 'dates series']

def setting(V, container, check=True):
    """(splitter, split call, label of a position, purge and embargo in label units)"""
    V.merge_conditions(); V.sharpen()
    n, K = V.int('samples', 0, small=14), V.int('folds', 2, small=4)
    e, p = V.int('embargo', 0, small=1), V.int('purge', 0, small=1)
    dated = container.startswith('dates')
    unit = V.choice('unit', ['h'] if V.symbolic else ['D', 'h']) if dated else None
    fwd = V.choice('look forward', [False, True])
    if container == 'none': groups, G = None, lambda i: i
    else: groups, G = V.groups('groups', n, container, unit)
    s = V.call(V.fn(KF), K, e, p, look_forward=fwd, freq=unit)
    X = V.array('X', (n, 1)) if container != 'series' else V.frame(V.array('X', (n, 1)), ['x'])
    u = V.unit(unit) if dated else 1
    summarised_bounds(V, n, K, G, check)
    return n, K, s, (lambda: s.split(X, None, groups)), G, p * u, e * u, fwd

MF = 'quantfinlib.train_test_split.kfoldpe:_modify_fold_bounds'

def borders(V, n, K):
    """first positions of K contiguous non-empty pieces of n positions, and n"""
    if not V.symbolic:
        F = sorted(V.rng.sample(range(1, n), K - 1)) if n > K else list(range(1, K))
        F = [0] + F + [n]
        return lambda f: F[int(f)]
    a = V.array('borders', K + 1, kind='i')
    V.relate(['borders'], lambda i: V.implies(i == 0, V.eq(V.at(a, i), 0)))
    V.relate(['borders'], lambda i: V.implies(V.eq(i, K), V.eq(V.at(a, i), n)))
    V.relate(['borders'], lambda i: V.implies(V.and_(0 <= i, i <= K), V.and_(0 <= V.at(a, i), V.at(a, i) <= n, V.implies(i > 0, V.at(a, i) > 0), V.implies(i < K, V.at(a, i) < n))))
    V.relate2(['borders'], lambda i, j: V.implies(V.and_(0 <= i, i < j, j <= K), V.at(a, i) < V.at(a, j)))
    return lambda f: V.at(a, f)

def aligned(V, G, B, n, K, k):
    """the bounds B(fold, side) partition n positions along the groups: what is said about fold k"""
    yield 'starts with the first position', V.implies(k == 0, V.eq(B(k, 0), 0))
    yield 'ends with the last position', V.implies(V.eq(k, K - 1), V.eq(B(k, 1), n - 1))
    yield 'positions', V.and_(0 <= B(k, 0), B(k, 0) < n, 0 <= B(k, 1), B(k, 1) < n)

def aligned_next(V, G, B, n, K, k):
    yield 'the next fold follows without gap or overlap', V.eq(B(k + 1, 0), B(k, 1) + 1)
    yield 'no group in two folds', G(B(k, 1)) < G(B(k, 1) + 1)

for c in ('array', 'dates'):
    @contract('C01', f'bounds {c}')
    def _(V, c=c):
        V.merge_conditions(); V.sharpen()
        n, K = V.int('samples', 2, small=14), V.int('folds', 2, small=4)
        V.assume(K <= n)
        F = borders(V, n, K)
        groups, G = V.groups('groups', n, c)
        b = V.generate((K, 2), lambda f, s: V.If(s == 0, F(f), F(f + 1) - 1), kind='i')
        o, r = V.outcome(V.fn(MF), bound_per_fold=b, groups=groups)
        if o == 'raise': return
        V.ensure('one row per fold', V.shape_is(r, K, 2))
        B = V.snapshot(r)
        for k in V.forall('k', 0, K):
            for what, cond in aligned(V, G, B, n, K, k): V.ensure(what, cond)
        for k in V.forall('k', 0, K - 1):
            a = F(k + 1)
            if V.fork(V.eq(G(a - 1), G(a))):
                # the group goes on in the next fold: its last position and the first position of a later group are neighbours
                g = G(a - 1)
                p, q = V.last_where(0, n - 1, lambda j: V.eq(G(j), g)), V.first_where(0, n - 1, lambda j: G(j) > g)
                V.lemma('the last position of the group', V.and_(a <= p, p <= n - 1, V.eq(G(p), g)))
                V.lemma('a later position belongs to a later group', V.implies(p + 1 <= n - 1, G(p + 1) > g))
                V.lemma('the first position of a later group', V.implies(V.any(0, n - 1, lambda j: G(j) > g), V.and_(q <= n - 1, G(q) > g)))
                V.lemma('a later group exists', V.any(0, n - 1, lambda j: G(j) > g))
                V.lemma('neighbours', V.implies(q <= n - 1, V.eq(q, p + 1)))
                s = V.first_where(0, n - 1, lambda j: V.eq(G(j), G(q)))
                V.lemma('the first position of the later group', V.implies(q <= n - 1, V.eq(s, q)))
            for what, cond in aligned_next(V, G, B, n, K, k): V.ensure(what, cond)

def summarised_bounds(V, n, K, G, check):
    """split sees the contract of the bounds function only (proved above)."""
    if not V.symbolic: return
    lo, hi = V.array('fold start', K, kind='i'), V.array('fold end', K, kind='i')
    B = lambda k, s: V.at(hi if s == 1 else lo, k)
    def fact(k):
        c = [V.implies(V.and_(0 <= k, k < K), x) for _, x in aligned(V, G, B, n, K, k)]
        return V.and_(*c, *[V.implies(V.and_(0 <= k, k < K - 1), x) for _, x in aligned_next(V, G, B, n, K, k)])
    V.relate(['fold start', 'fold end'], fact)
    def bounds(bound_per_fold, groups):
        if check:
            V.ensure('bounds: one row per fold', V.shape_is(bound_per_fold, K, 2))
            b = V.snapshot(bound_per_fold)
            for k in V.forall('fold', 0, K):
                V.ensure('bounds: folds in order from the first position', V.and_(V.implies(k == 0, V.eq(b(k, 0), 0)), b(k, 0) <= b(k, 1)))
                V.ensure('bounds: to the last position', V.implies(V.eq(k, K - 1), V.eq(b(k, 1), n - 1)))
            for k in V.forall('fold', 0, K - 1): V.ensure('bounds: no gap', V.eq(b(k + 1, 0), b(k, 1) + 1))
            for i in V.forall('position', 0, n): V.ensure('bounds: the labels by position', V.eq(V.label(groups, i), G(i)))
        return V.generate((K, 2), lambda k, s: V.If(s == 0, B(k, 0), B(k, 1)), kind='i')
    V.summary(MF, bounds, 'returns bounds that partition the positions along the groups')

for c in CONTAINERS:
    @contract('C01', f'folds {c}')
    def _(V, c=c):
        n, K, s, call, G, p, e, fwd = setting(V, c)
        x = V.splits(call)
        if x is None: return               # the splitter did not complete
        V.ensure('as many splits as announced', V.and_(V.eq(x.count, s.get_n_splits()), V.eq(x.count, K - 1 if fwd else K)))
        V.ensure('no empty fold', x.nonempty(x.test))
        lo, hi = x.run(x.test)
        k = x.k
        for i in V.forall('i', 0, x.size(x.test)): V.ensure('a contiguous run in order', V.eq(x.item(x.test, i), lo(k) + i))
        V.ensure('positions of samples', V.and_(0 <= lo(k), hi(k) < n))
        if V.fork(k == 0): V.ensure('the earliest fold is left out only when looking forward', lo(k) > 0 if fwd else V.eq(lo(k), 0))
        if V.fork(k == x.count - 1): V.ensure('the last sample is tested', V.eq(hi(k), n - 1))
        else:
            V.ensure('the next fold follows without gap or overlap', V.eq(lo(k + 1), hi(k) + 1))
            V.ensure('no group in two folds', G(hi(k)) < G(hi(k) + 1))
