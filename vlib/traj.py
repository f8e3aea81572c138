"""Monitored trajectories of the hydraulic solver: workload, observation, reference residuals."""
import numpy as np
from vlib import nets, oracle

OPTS = [dict(), dict(tabular=True), dict(ends=True), dict(controls='owp'), dict(controls='o', tabular=True),
        dict(controls='w', ends=True), dict(controls='p'), dict(friction=('hw', 'cm', 'dw')),
        dict(variable_losses=True, ends=True), dict(ctrl=True), dict(friction=('dw',), variable_losses=True),
        dict(max_depth=True), dict(flat=True), dict(extra=3, M=6),
        dict(hj_range=(-0.6, 0.4)), dict(hj_range=(-0.3, 0.3), slope=0.01)]


def scenario(rng, i, n, **force):
    o = dict(OPTS[i % len(OPTS)])
    o.update(force)
    spec = nets.rand_net(rng, **o)
    kw = {}
    if rng.random() < 0.2:
        kw['inertial_damping'] = True
    if rng.random() < 0.3 and 'internals' not in force:
        nets.add_internals(rng, spec)
        kw['mobile_elements'] = False
    if rng.random() < 0.3:
        kw['min_depth'] = float(10 ** rng.uniform(-6, -3))
    steps = nets.forcing(rng, spec, n, lateral=rng.random() < 0.5, negative=rng.random() < 0.25,
                         qmax=float(rng.choice([0.3, 1.5, 4.0])))
    return spec, kw, steps


def describe(spec, kw=None):
    return dict(junctions=len(spec['sj']), superlinks=len(spec['sl']),
                shapes=sorted(set(r['shape'] for r in spec['sl'])),
                bc=sum(r['bc'] for r in spec['sj']), orifices=len(spec['orifices']), weirs=len(spec['weirs']),
                pumps=len(spec['pumps']), tabular=sum(r['storage'] == 'tabular' for r in spec['sj']),
                internals='given' if spec.get('internals') else spec['kw']['internal_links'], **(kw or {}))


class Run:
    """Drives a model through a list of step inputs and yields what a monitor needs."""

    def __init__(self, spec, kw, **build):
        self.spec = spec
        self.m = nets.build(spec, **kw, **build)
        self.ref = oracle.Ref(spec, min_depth=kw.get('min_depth', 1e-5),
                              inertial_damping=kw.get('inertial_damping', False))

    def steps(self, steps, refine=0.0, rng=None):
        """Yields (index, inputs, old, cur, new, residuals, junction mask, superlink mask, quiet)
        where quiet masks junctions none of whose neighbours was clamped."""
        for n, e in enumerate(steps):
            old = cur = oracle.snap(self.m)
            k = nets.step_kwargs(e)
            self.m.step(**k)
            new = oracle.snap(self.m)
            yield self._pack(n, e, old, cur, new)
            if refine and rng.random() < refine:
                cur = new
                self.m.step(first_iter=False, **k)
                new = oracle.snap(self.m)
                yield self._pack(n, e, old, cur, new)

    def _pack(self, n, e, old, cur, new):
        ref = self.ref
        out = ref.residuals(old, cur, new, e, e['dt'])
        jok, kok = ref.masks(old, new, out)
        ref.advance(out)
        return n, e, old, cur, new, out, jok, kok, self.quiet(jok)

    def quiet(self, jok):
        ok = jok.copy()
        a, b = self.ref.Ju, self.ref.Jd
        np.logical_and.at(ok, a, jok[b]); np.logical_and.at(ok, b, jok[a])
        for c in ('orifices', 'weirs', 'pumps'):
            for r in self.spec[c]:
                ok[r['sj_0']] &= jok[r['sj_1']]; ok[r['sj_1']] &= jok[r['sj_0']]
        return ok

    def controlled(self):
        c = np.zeros(self.ref.M, bool)
        for t in ('orifices', 'weirs', 'pumps'):
            for r in self.spec[t]:
                c[[r['sj_0'], r['sj_1']]] = True
        return c

    def components(self):
        """Groups of junctions connected through control structures."""
        p = list(range(self.ref.M))

        def f(a):
            while p[a] != a:
                a = p[a]
            return a
        for t in ('orifices', 'weirs', 'pumps'):
            for r in self.spec[t]:
                p[f(r['sj_0'])] = f(r['sj_1'])
        g = {}
        for j in range(self.ref.M):
            g.setdefault(f(j), []).append(j)
        return [v for v in g.values() if len(v) > 1]
