"""Observing the real code: silent logger, outcome capture, comparison."""
import io
import logging
import math
import os

import numpy as np

from mc.core import Violation

LOGGER = logging.Logger('mc-silent')
LOGGER.addHandler(logging.NullHandler())
LOGGER.disabled = True
logging.getLogger().addHandler(logging.NullHandler())
logging.disable(logging.CRITICAL)


class Outcome(tuple):
    """('ok', value) | ('exit', code) | ('raise', typename, message)"""


def attempt(func, *args, **kwargs):
    from mc.core import Hang
    try:
        return Outcome(('ok', func(*args, **kwargs)))
    except SystemExit as exc:
        return Outcome(('exit', exc.code))
    except (Hang, Violation):
        raise
    except Exception as exc:  # pylint: disable=broad-except
        return Outcome(('raise', type(exc).__name__, str(exc)[:200]))


def expect_ok(clause, func, *args, **kwargs):
    out = attempt(func, *args, **kwargs)
    if out[0] != 'ok':
        raise Violation(clause, 'expected a result, got %s' % (tuple(out),))
    return out[1]


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, (bool, np.bool_))


def diff(exp, got, rtol=1e-9, atol=1e-12, path='', strict=False):
    """First difference between the expected plain value and the observed one, or None.

    `exp` uses plain Python containers; numpy arrays and tuples on the observed side are treated as sequences unless `strict`.
    """
    if isinstance(exp, (bool, np.bool_)):
        if not isinstance(got, (bool, np.bool_)) or bool(exp) != bool(got):
            return '%s: expected %r, got %r' % (path, exp, got)
        return None
    if exp is None:
        return None if got is None else '%s: expected None, got %r' % (path, short(got))
    if isinstance(exp, (int, np.integer)):
        if isinstance(got, (bool, np.bool_)) or not is_num(got) or got != exp:
            if isinstance(got, np.ndarray) and got.shape == () and got == exp:
                return None
            return '%s: expected %r, got %r' % (path, exp, short(got))
        if strict and not isinstance(got, (int, np.integer)):
            return '%s: expected integer %r, got %r' % (path, exp, short(got))
        return None
    if isinstance(exp, (float, np.floating)):
        if isinstance(got, np.ndarray) and got.shape == ():
            got = float(got)
        if not is_num(got):
            return '%s: expected %r, got %r' % (path, exp, short(got))
        if strict and not isinstance(got, (float, np.floating)):
            return '%s: expected float %r, got %r' % (path, exp, short(got))
        if math.isnan(exp):
            return None if math.isnan(got) else '%s: expected nan, got %r' % (path, got)
        if not abs(exp - got) <= atol + rtol * abs(exp):
            return '%s: expected %r, got %r' % (path, exp, got)
        return None
    if isinstance(exp, str):
        return None if (isinstance(got, str) and got == exp) else '%s: expected %r, got %r' % (path, exp, short(got))
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            return '%s: expected a dictionary, got %r' % (path, short(got))
        ke, kg = set(exp), set(got)
        if ke != kg:
            return '%s: keys missing %r, unexpected %r' % (path, sorted(map(str, ke - kg)), sorted(map(str, kg - ke)))
        for key in exp:
            sub = diff(exp[key], got[key], rtol, atol, '%s[%r]' % (path, key), strict)
            if sub:
                return sub
        return None
    if isinstance(exp, np.ndarray) and exp.dtype.kind in 'fiu':
        arr = np.asarray(got) if isinstance(got, (list, tuple, np.ndarray)) else None
        if arr is None or arr.dtype.kind not in 'fiu':
            return '%s: expected an array, got %r' % (path, short(got))
        if arr.shape != exp.shape:
            return '%s: expected shape %r, got %r' % (path, exp.shape, arr.shape)
        bad = ~(np.abs(arr - exp) <= atol + rtol * np.abs(exp))
        if bad.any():
            idx = tuple(int(i[0]) for i in np.nonzero(bad))
            return '%s[%s]: expected %r, got %r' % (path, ','.join(map(str, idx)), exp[idx], arr[idx])
        return None
    if isinstance(exp, np.ndarray):
        exp = exp.tolist()
    if isinstance(exp, (list, tuple)):
        if isinstance(got, np.ndarray):
            if got.ndim == 0:
                return '%s: expected a sequence, got %r' % (path, got)
        elif not isinstance(got, (list, tuple)):
            return '%s: expected a sequence, got %r' % (path, short(got))
        if strict and isinstance(exp, list) and not isinstance(got, list):
            return '%s: expected a list, got %r' % (path, short(got))
        if len(exp) != len(got):
            return '%s: expected %d items, got %d: %r' % (path, len(exp), len(got), short(got))
        for i, (a, b) in enumerate(zip(exp, got)):
            sub = diff(a, b, rtol, atol, '%s[%d]' % (path, i), strict)
            if sub:
                return sub
        return None
    return None if exp == got else '%s: expected %r, got %r' % (path, exp, got)


def short(obj):
    txt = repr(obj)
    return txt if len(txt) < 160 else txt[:160] + '...'


def need(clause, exp, got, what='', **kw):
    sub = diff(exp, got, path=what, **kw)
    if sub:
        raise Violation(clause, sub)


def plain(obj):
    """Deep plain copy of an observation (for before/after comparisons)."""
    if isinstance(obj, np.ndarray):
        if obj.dtype.names:
            return {'struct': list(obj.dtype.names), 'columns': {n: plain(obj[n]) for n in obj.dtype.names}}
        return ('arr', obj.shape, obj.dtype.kind, obj.tolist())
    if isinstance(obj, dict):
        return {k: plain(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [plain(v) for v in obj]
    if isinstance(obj, (np.integer, np.floating, np.bool_)):
        return obj.item()
    if obj is None or isinstance(obj, (str, int, float, bool, bytes)):
        return obj
    if hasattr(obj, '__dict__'):
        return {k: plain(v) for k, v in vars(obj).items() if not k.startswith('_logger')}
    return repr(obj)


def same(a, b):
    """Structural equality of two `plain` observations (NaN equals NaN)."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool)):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def put(name, text, binary=False):
    """Write a scratch file and return its path."""
    from mc import core
    path = os.path.join(core.scratch(), name)
    with open(path, 'wb') as fh:
        fh.write(text if isinstance(text, bytes) else text.encode('utf8'))
    return path


ROUTES = ('path', 'handle', 'stringio')


def via(cls, text, route, string_kw=None, **kw):
    """Construct a parser from `text` through one of the input routes."""
    kw.setdefault('logger', LOGGER)
    if route == 'path':
        return cls(file_path=put('input.txt', text), **kw)
    if route == 'handle':
        with open(put('input.txt', text), 'r', encoding='utf8') as fh:
            return cls(file_handler=fh, **kw)
    if route == 'stringio':
        return cls(file_handler=io.StringIO(text), **kw)
    if route == 'string':
        return cls(**{string_kw: text}, **kw)
    raise ValueError(route)
