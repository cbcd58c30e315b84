"""Integer and boolean observations: the result is the one of the same observations as floats."""
import numpy as np

from .harness import check_equiv


def same_as_float(T, label, run, shapes, what, floats="real", others=None, dtypes=(np.int32, np.bool_)):
    """run(*arrays): JAX-traceable use of the real module; arrays of the given shapes get integer (boolean) data,
    `others` (name -> (shape, dtype)) follow as they are."""
    import jax.numpy as jnp

    others = others or {}
    names = [f"x{i}" for i in range(len(shapes))]

    for dt in dtypes:
        def inputs(I):
            d = {n: I.sym(n, s, dt) for n, s in zip(names, shapes)}
            d.update({n: I.sym(n, s, t) for n, (s, t) in others.items()})
            return d

        def impl(**d):
            return run(*[d[n] for n in names], *[d[n] for n in others])

        def as_floats(**d):
            return run(*[d[n].astype(jnp.float32) for n in names], *[d[n] for n in others])

        def gen(rng):
            d = {n: rng.integers(-9, 10, s).astype(np.int32) if dt is not np.bool_ else rng.random(s) < 0.5 for n, s in zip(names, shapes)}
            d.update({n: (rng.random(s) < 0.5) if t is np.bool_ else rng.integers(-8, 9, s).astype(t) for n, (s, t) in others.items()})
            return d

        check_equiv(T, f"{label} {np.dtype(dt).name} data", inputs, impl,
                    lambda I, **d: I.call(lambda *a: as_floats(**dict(zip(d, a))), *d.values()), floats=floats, sample_gen=gen,
                    what=f"{what}: {np.dtype(dt).name} observations give other results than the same observations as floats")
        if T.violations:
            return
