"""Build real models with omtools and observe them."""
import contextlib
import io
import signal

import numpy as np

from . import env

ot_pkg = env.import_omtools()
import omtools.api as ot            # noqa: E402
import openmdao.api as om           # noqa: E402
import openmdao.core.problem as _omproblem   # noqa: E402

# OpenMDAO keeps the names of all problems of a process; each case is on its own
class TimeLimit(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    def h(*a):
        raise TimeLimit('no result after %s s' % seconds)
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        with np.errstate(all='ignore'):
            yield


def make(fn, base=None, **kw):
    """A Group whose setup method calls fn(group)."""
    class G(base or ot.Group):
        def setup(self):
            fn(self)
    return G(**kw)


def problem(model, mode='auto', linear=''):
    p = om.Problem(model)
    if linear:
        # the partial derivatives of all components in one matrix
        model.linear_solver = om.DirectSolver(assemble_jac=True)
        model.options['assembled_jac_type'] = linear
    try:
        _omproblem._clear_problem_names()
    except AttributeError:
        pass
    if mode == 'cs':
        # totals by a complex step through the whole model
        model.approx_totals(method='cs')
        p.setup(force_alloc_complex=True)
    else:
        p.setup(mode=mode)
    return p


def describe(e):
    """One line for an exception of the code under test."""
    return '%s: %s' % (type(e).__name__, ' '.join(str(e).split())[:300])


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if not np.all(np.isfinite(a)):
        return False
    scale = 1 + np.maximum(np.abs(a), np.abs(b))
    return bool(np.all(np.abs(a - b) <= tol * scale))


def components(model):
    """Immediate subsystems of a group, in execution order."""
    return list(model.system_iter(recurse=False, include_self=False))


def promoted_outputs(system, group):
    """Names of the outputs of a subsystem as promoted in the group."""
    out = []
    for abs_name, meta in group._var_abs2meta['output'].items():
        if abs_name == system.pathname or abs_name.startswith(system.pathname + '.'):
            out.append(group._resolver.abs2prom(abs_name, 'output') if hasattr(group, '_resolver')
                       else group._var_allprocs_abs2prom['output'][abs_name])
    return out
