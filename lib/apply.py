"""Map the operations of OmOps.tla to calls of the omtools API."""
import operator

import numpy as np

LET = 'abcdefghijklmnopqrstuvwxyz'


def lent(f, *a, **kw):
    """f(*a, **kw) with copies of all arrays, which are overwritten afterwards:
    what the user does to an array later is not part of the program."""
    mine = []

    def copy(v):
        if isinstance(v, np.ndarray):
            v = np.array(v)
            mine.append(v)
        return v
    r = f(*[copy(v) for v in a], **{k: copy(v) for k, v in kw.items()})
    for v in mine:
        v[...] = 99 if v.dtype.kind == 'i' else np.nan
    return r


def lit(p, shape):
    """Python literal of the kind p['lk'] with value p['c']."""
    k, c = p['lk'], p['c']
    if k == 'array':
        return np.array([n / d for n, d in c]).reshape(shape)
    n, d = c[0]
    if k == 'int':
        assert d == 1
        return int(n)
    if k == 'npint':
        return np.int64(n)
    if k == 'npfloat':
        return np.float64(n / d)
    return n / d


def pykey(key, shape, rng=None):
    """Python subscript for a key of the specification.  Bounds that are
    implied (start 0, stop at the end, step 1) are left out at random."""
    def sl(s, n):
        a, b, c = s
        if rng is not None:
            if b - a == 1 and c == 1 and key['k'] == 't' and rng.rand() < .5:
                return int(a)
            if a == 0 and rng.rand() < .5:
                a = None
            if b == n and rng.rand() < .5:
                b = None
            if c == 1 and rng.rand() < .7:
                c = None
        return slice(a, b, c)
    if key['k'] == 'i':
        return int(key['i'])
    if key['k'] == 's':
        return sl(key['s'], int(np.prod(shape)))
    return tuple(sl(s, n) for s, n in zip(key['t'], shape))


def apply(ot, op, a, p, rng=None, variant=None):
    """Apply operation op with parameters p to the expressions a."""
    sh = tuple(a[0].shape)
    if op == 'pos':
        return +a[0]
    if op == 'neg':
        return -a[0]
    if op in ('add', 'sub', 'mul', 'div'):
        return {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
                'div': operator.truediv}[op](a[0], a[1])
    if op in ('addc', 'subc', 'mulc', 'divc', 'powc'):
        f = {'addc': operator.add, 'subc': operator.sub, 'mulc': operator.mul,
                'divc': operator.truediv, 'powc': operator.pow}[op]
        return lent(f, a[0], lit(p, sh))
    if op in ('raddc', 'rsubc', 'rmulc', 'rdivc'):
        return {'raddc': operator.add, 'rsubc': operator.sub, 'rmulc': operator.mul,
                'rdivc': operator.truediv}[op](lit(p, sh), a[0])
    if op in ('sum', 'average'):
        f = getattr(ot, op)
        return f(*a, axes=tuple(p['axes'])) if p['axes'] else f(*a)
    if op in ('max', 'min'):
        kw = {}
        if p['axis']:
            kw['axis'] = p['axis'][0]
        if p['rho'] != 20 or (rng is not None and rng.rand() < .3):
            kw['rho'] = float(p['rho'])
        return getattr(ot, op)(*a, **kw)
    if op == 'pnorm':
        kw = {}
        if p['p'] != 2 or (rng is not None and rng.rand() < .3):
            kw['pnorm_type'] = p['p']
        if p['ak'] == 'int':
            kw['axis'] = p['axis'][0]
        elif p['ak'] == 'tuple':
            kw['axis'] = tuple(p['axis'])
        return ot.pnorm(a[0], **kw)
    if op == 'dot':
        if len(sh) == 1:
            return ot.dot(a[0], a[1])
        return ot.dot(a[0], a[1], axis=p['axis'])
    if op == 'inner':
        if len(sh) == 1 and len(a[1].shape) == 1:
            return ot.inner(a[0], a[1])
        return ot.inner(a[0], a[1], axes=(list(p['axes'][0]), list(p['axes'][1])))
    if op == 'outer':
        return ot.outer(a[0], a[1])
    if op == 'cross':
        return ot.cross(a[0], a[1], axis=p['axis'])
    if op == 'matmat':
        return ot.matmat(a[0], a[1])
    if op == 'matvec':
        return ot.matvec(a[0], a[1])
    if op == 'transpose':
        return ot.transpose(a[0])
    if op == 'reorder':
        src = LET[8:8 + len(sh)]
        return ot.reorder_axes(a[0], src + '->' + ''.join(src[i - 1] for i in p['perm']))
    if op == 'reshape':
        return ot.reshape(a[0], new_shape=tuple(p['shape']))
    if op == 'expand':
        shape = tuple(p['shape'])
        if sh == (1, ) and not p['pos']:
            return ot.expand(a[0], shape)
        out = LET[8:8 + len(shape)]
        return ot.expand(a[0], shape, ''.join(out[i - 1] for i in p['pos']) + '->' + out)
    if op == 'rotmat':
        return ot.rotmat(a[0], p['axis'])
    if op == 'einsum':
        api, fmt = variant or (('old', 'new')[rng.randint(2)], ('dense', 'sparse')[rng.randint(2)])
        if api == 'old':
            sub = ','.join(''.join(LET[8 + l] for l in s) for s in p['ins'])
            return ot.einsum(*a, subscripts=sub + '->' + ''.join(LET[8 + l] for l in p['out']),
                             partial_format=fmt)
        o = [tuple(s) for s in p['ins']]
        if p['out']:
            o.append(tuple(p['out']))
        return ot.einsum_new_api(*a, operation=o, partial_format=fmt)
    if op == 'if_else':
        return ot.if_else(a[0], a[1], a[2])
    if op == 'get':
        return a[0][pykey(p['key'], sh, rng)]
    return getattr(ot, op)(a[0])
