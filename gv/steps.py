"""Recording variational states for the step monitors (C20, C21): every drawn sample set with the parameters it was drawn for."""
import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
from GPSKet.vqs import MCStateUniqueSamples


def copy_tree(t):
    return jax.tree_util.tree_map(lambda x: np.array(x), t)


class _Rec:
    def sample(self, *a, **kw):
        if getattr(self, "script", None):
            out = self.script.pop(0)
            self._samples = out
        else:
            out = super().sample(*a, **kw)
        if not hasattr(self, "draws"):
            self.draws = []
        self.draws.append((copy_tree(self.parameters), np.array(out)))
        return out


class RecordedMC(_Rec, nk.vqs.MCState):
    pass


class RecordedUnique(_Rec, MCStateUniqueSamples):
    """samples_with_counts is recorded too (the set the estimators see)."""
    @property
    def samples_with_counts(self):
        out = MCStateUniqueSamples.samples_with_counts.fget(self)
        self.last_set = tuple(np.array(o) for o in out)
        return out


def delta(R, p0, p1, lr):
    """The real vector of the update direction implied by two parameter trees: p1 = p0 - lr * d."""
    return (R.vec(p0) - R.vec(p1)) / lr
