"""Run-time instrumentation of the real classes.

``watch(cls, after)`` hooks every public operation of the class that can change an
instance (methods and property setters) for the duration of a ``with`` block and calls
``after(name, instance, error)`` when the *outermost* hooked operation ends, normally or
not.  Intermediate states inside an operation are not judged.
"""

import contextlib
import functools

MUTATORS = (
    "add_exchange",
    "remove_exchange",
    "add_on_site",
    "remove_on_site",
    "add_atom",
    "remove_atom",
    "filter",
    "standardize",
    "__setitem__",
    "__delitem__",
)
SETTERS = (
    "notation",
    "double_counting",
    "spin_normalized",
    "exchange_factor",
    "on_site_factor",
    "spiral_vector",
    "cone_axis",
)


@contextlib.contextmanager
def watch(cls, after, mutators=MUTATORS, setters=SETTERS):
    depth = [0]
    saved = {}

    def wrap(name, fn):
        @functools.wraps(fn)
        def hooked(self, *args, **kwargs):
            depth[0] += 1
            error = None
            try:
                return fn(self, *args, **kwargs)
            except Exception as e:
                error = e
                raise
            finally:
                depth[0] -= 1
                if depth[0] == 0:
                    # Hooks are silent while the observer looks at the state
                    depth[0] += 1
                    try:
                        after(name, self, error)
                    finally:
                        depth[0] -= 1

        return hooked

    try:
        for name in mutators:
            fn = getattr(cls, name, None)
            if fn is not None:
                saved[name] = cls.__dict__.get(name)
                setattr(cls, name, wrap(name, fn))
        for name in setters:
            prop = getattr(cls, name, None)
            if isinstance(prop, property) and prop.fset is not None:
                saved[name] = cls.__dict__.get(name)
                setattr(
                    cls,
                    name,
                    property(prop.fget, wrap("set " + name, prop.fset), prop.fdel),
                )
        yield
    finally:
        for name, old in saved.items():
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)


@contextlib.contextmanager
def count_calls(cls, names, limit, make_error):
    """Count calls of the methods; raise make_error(total) when the limit is exceeded."""
    total = [0]
    saved = {}

    def wrap(fn):
        @functools.wraps(fn)
        def hooked(self, *args, **kwargs):
            total[0] += 1
            if total[0] > limit:
                raise make_error(total[0])
            return fn(self, *args, **kwargs)

        return hooked

    try:
        for name in names:
            saved[name] = cls.__dict__.get(name)
            setattr(cls, name, wrap(getattr(cls, name)))
        yield total
    finally:
        for name, old in saved.items():
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)
