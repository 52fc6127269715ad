"""Replay of OmReject: well-formed applications build, ill-formed ones raise."""
import operator

import numpy as np

from . import apply as ap
from . import omrun
from .omrun import ot

LET = ap.LET


def bad_operand(kind, n=3):
    return {'str': lambda: 'x0', 'none': lambda: None, 'list': lambda: [1., 2., 3.], 'dict': lambda: {'a': 1},
            'object': object, 'type': lambda: int, 'number': lambda: 2.5,
            'array': lambda: np.ones(n)}[kind]()


def kind_call(g, x, f, kind):
    """All the ways of giving an operand of this kind to f; each must raise."""
    b = bad_operand(kind)
    m = g.declare_input('m', shape=(3, 3))
    c = g.declare_input('c')
    ops = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv, 'pow': operator.pow}
    if f in ops:
        return [lambda: ops[f](x, b)]
    if f[0] == 'r' and f[1:] in ops:
        return [lambda: ops[f[1:]](b, x)]
    if f in ('sum2', 'max2', 'dot2', 'inner2', 'outer2', 'cross2', 'matmat2', 'matvec2'):
        h = getattr(ot, f[:-1])
        kw = {'axis': 0} if f == 'cross2' else {}
        return [lambda: h(m if f in ('matmat2', 'matvec2') else x, b, **kw)]
    if f in ('dot', 'inner', 'outer', 'matmat', 'matvec'):
        return [lambda: getattr(ot, f)(b, x)]
    if f == 'cross':
        return [lambda: ot.cross(b, x, axis=0)]
    if f == 'if_else':
        return [lambda: ot.if_else(b, x, x), lambda: ot.if_else(c, b, x), lambda: ot.if_else(c, x, b)]
    if f == 'reshape':
        return [lambda: ot.reshape(b, new_shape=(3, 1))]
    if f == 'expand':
        return [lambda: ot.expand(b, (2, 3))]
    if f == 'rotmat':
        return [lambda: ot.rotmat(b, 'x')]
    if f == 'reorder_axes':
        return [lambda: ot.reorder_axes(b, 'ij->ji')]
    if f == 'einsum':
        return [lambda: ot.einsum(b, subscripts='i->i'), lambda: ot.einsum(x, b, subscripts='i,i->i')]
    if f == 'einsum_new_api':
        return [lambda: ot.einsum_new_api(b, operation=[(0, ), (0, )])]
    if f == 'assign':
        def assign():
            y = g.create_output('y', shape=(3, ))
            y[0:3] = b
            return y
        return [assign]
    if f == 'define':
        def define():
            y = g.create_output('y', shape=(3, ))
            y.define(b)
            return y
        return [define]
    if f == 'register':
        return [lambda: g.register_output('v', b)]
    return [lambda: getattr(ot, f)(b)]


def whole(shape):
    return slice(0, shape[0]) if len(shape) == 1 else tuple(slice(0, n) for n in shape)


def operand(g, k, shape, src, out=None):
    """An operand of this shape that comes from src."""
    nm, val = 'x%d' % k, .5 + .1 * k

    def inp():
        return g.declare_input(nm, shape=shape, val=val)
    if src == 'indep':
        return g.create_indep_var(nm, shape=shape, val=val)
    if src == 'expr':
        return 1.5 * inp()
    if src == 'reg':
        return g.register_output('u%d' % k, inp() * 1.5)
    if src == 'get':
        big = (shape[0] + 1, ) + shape[1:]
        return g.declare_input(nm, shape=big, val=val)[whole(shape)]
    if src == 'whole':
        y = g.create_output('y%d' % k, shape=shape)
        y.define(1.5 * inp())
        return y
    if src == 'parts':
        y = g.create_output('y%d' % k, shape=shape)
        y[whole(shape)] = 1.5 * inp()
        return y
    if src == 'child':
        with g.create_group('c%d' % k) as c:
            c.register_output('u%d' % k, 1.5 * c.declare_input(nm, shape=shape, val=val))
        return g.declare_input('u%d' % k, shape=shape)
    if src == 'alias':
        inp()
        return inp()
    if src == 'out' and out is not None:
        return out
    return inp()


def use(g, z, how):
    """Make the value of z (an expression) an output."""
    if how == 'expr':
        z = 2 * z
    elif how == 'branch':
        z = ot.if_else(g.declare_input('cc'), z, z * 3)
    elif how == 'whole':
        y = g.create_output('z', shape=z.shape)
        return y.define(z)
    elif how == 'parts':
        y = g.create_output('z', shape=z.shape)
        y[whole(z.shape)] = z
        return
    g.register_output('z', z)


def place(fn, cx):
    """A model with the application fn(group, sources, use) in this context."""
    def here(g):
        use(g, fn(g, cx), cx['use'])

    def inside(g):
        g.add_subsystem('child', omrun.make(here), promotes=['*'])

    def within(g, what=here):
        with g.create_group('child') as c:
            what(c)
    pl = cx['pl']
    if pl == 'class':
        return inside
    if pl == 'with':
        return within
    if pl == 'deep':
        return lambda g: g.add_subsystem('up', omrun.make(lambda h: within(h, inside)), promotes=['*'])
    if pl == 'between':
        def between(g):
            a = g.declare_input('aa', shape=(2, ))
            b = g.register_output('bb', ot.sin(a) * 2)
            with g.create_group('before') as c:
                c.register_output('dd', c.declare_input('bb', shape=(2, )) - 1)
            here(g)
            d = g.declare_input('dd', shape=(2, ))
            g.register_output('ee', d * b)
        return between
    if pl in ('implicit', 'bracketed'):
        class C(ot.ImplicitComponent):
            def setup(self):
                g = self.group
                z = fn(g, cx)
                y = g.create_implicit_output('z', shape=z.shape)
                if pl == 'implicit':
                    y.define_residual(y * 2 - z)
                else:
                    y.define_residual_bracketed(y * 2 - z, x1=-50, x2=50)
        return lambda g: g.add_subsystem('comp', C(), promotes=['*'])
    return here


PLAIN = {'pl': 'top', 's1': 'input', 's2': 'input', 'use': 'reg'}


def build_entry(g, e, cx=PLAIN, which=0, given=None):
    """The expression of the entry e; its operands come from cx, or are given."""
    op, p = e['op'], e['p']
    a = given or [operand(g, i, tuple(s), cx['s1'] if i == 0 else cx['s2']) for i, s in enumerate(e['sh'])]
    if op == 'kind':
        calls = kind_call(g, a[0], p['f'], p['kind'])
        z = calls[which]()
    elif op == 'divzero':
        c = {'int': 0, 'float': 0., 'npint': np.int64(0), 'npfloat': np.float64(0), 'negzero': -0.,
             'nonzero': 1e-3}[p['kind']]
        z = a[0] / c
    elif op in ('sum', 'average', 'max', 'min'):
        z = getattr(ot, op)(*a)
    elif op in ('addc', 'subc', 'mulc', 'divc', 'powc'):
        c = np.arange(1., 1 + np.prod(p['cs'])).reshape(p['cs'])
        z = {'addc': operator.add, 'subc': operator.sub, 'mulc': operator.mul, 'divc': operator.truediv,
             'powc': operator.pow}[op](a[0], c)
    elif op in ('dot', 'cross'):
        z = ot.dot(a[0], a[1], axis=p['axis']) if op == 'dot' and len(e['sh'][0]) > 1 else \
            ot.dot(a[0], a[1]) if op == 'dot' else ot.cross(a[0], a[1], axis=p['axis'])
    elif op == 'inner':
        z = ot.inner(a[0], a[1], axes=(list(p['axes'][0]), list(p['axes'][1])))
    elif op == 'pnorm':
        z = ot.pnorm(a[0], pnorm_type=p['p'])
    elif op == 'expand':
        t = tuple(p['shape'])
        out = LET[8:8 + len(t)]
        if not p['pos']:
            z = ot.expand(a[0], t)
        else:
            z = ot.expand(a[0], t, ''.join((out + 'zzzz')[i - 1] if 0 < i <= len(t) else 'w' for i in p['pos']) + '->' + out)
    else:
        z = ap.apply(ot, op, a, p, np.random.RandomState(3), ('old', 'dense') if op == 'einsum' else None)
    return z


def run_one(job):
    e, ok, cx = job
    n = 3 if e['op'] == 'kind' and e['p']['f'] == 'if_else' else 2 if e['op'] == 'kind' and e['p']['f'] == 'einsum' else 1
    for which in range(n):
        # (a different operand position each time)
        try:
            with omrun.quiet(), omrun.limit(60):
                p = omrun.problem(omrun.make(place(lambda g, c: build_entry(g, e, c, which), cx)))
                p.final_setup()
        except Exception as x:
            if ok:
                return 'accept', 'raised %s; specified: well formed' % omrun.describe(x)
        else:
            if not ok:
                how = ''
                try:
                    with omrun.quiet(), omrun.limit(60):
                        p.run_model()
                        how = ', which runs: z = %s' % np.array(p.get_val('z')).tolist()
                except Exception as x:
                    how = ', which fails when it runs: ' + omrun.describe(x)
                return 'reject', 'a model was built%s; specified: ill formed' % how
    return None
