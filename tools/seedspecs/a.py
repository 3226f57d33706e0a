SPECS = [
 dict(id="s01-down-pair-parity", property="C01",
  edits=[("GPSKet/operator/hamiltonian/ab_initio.py",
"""                                # Take first hop into account
                                left_limit = min(j, b)
                                right_limit = max(j, b) - 1
                                if i <= right_limit and i > left_limit:
                                    multiplicator *= -1
                                if a <= right_limit and a > left_limit:""",
"""                                # Take first hop into account
                                left_limit = min(j, b)
                                right_limit = max(j, b) - 1
                                if i <= right_limit and i > left_limit:
                                    multiplicator *= -1
                                if a < right_limit and a > left_limit:""")],
  needs="two spin-down electrons hopping where the target of the first hop lies directly below the upper end of the second hop",
  what="sign of same-spin (down) double excitations of the dense ab-initio Hamiltonian",
  demo='''
import numpy as np
from GPSKet.hilbert import FermionicDiscreteHilbert
from GPSKet.operator.hamiltonian import AbInitioHamiltonian
rng = np.random.default_rng(0)
L = 5
h = rng.normal(size=(L, L)); h = h + h.T
e = rng.normal(size=(L,) * 4)
e = e + e.transpose(1, 0, 2, 3); e = e + e.transpose(0, 1, 3, 2); e = e + e.transpose(2, 3, 0, 1)
up = AbInitioHamiltonian(FermionicDiscreteHilbert(L, n_elec=(2, 0)), h, e).to_dense()
dn = AbInitioHamiltonian(FermionicDiscreteHilbert(L, n_elec=(0, 2)), h, e).to_dense()
# the spectrum cannot depend on the spin the electrons have
d = np.abs(np.linalg.eigvalsh(up) - np.linalg.eigvalsh((dn + dn.conj().T) / 2)).max() + np.abs(dn - dn.conj().T).max()
print("difference", d)
raise SystemExit(0 if d < 1e-8 else 1)
'''),
 dict(id="s02-asep-tilt-delta", property="C02",
  edits=[("GPSKet/operator/hamiltonian/asep.py", "delta * exp_lambd * apply_annihilation(L - 1", "delta * exp_minus_lambd * apply_annihilation(L - 1")],
  needs="a non-zero tilt lambda and a non-zero right exit rate delta",
  what="large-deviation tilt of the right boundary exit of the exclusion process",
  demo='''
import numpy as np, netket as nk
from GPSKet.operator.hamiltonian.asep import AsymmetricSimpleExclusionProcess as A
lam = 0.4
for L in (2, 3):
    W = np.asarray(A(nk.hilbert.Qubit(L), lambd=lam, alpha=0.0, beta=0.0, gamma=0.0, delta=0.7, p=0.0, q=0.0).to_dense())
    off = W[~np.eye(len(W), dtype=bool)]
    off = off[off != 0]
    if not np.allclose(off, 0.7 * np.exp(lam)):
        print(off); raise SystemExit(1)
'''),
 dict(id="s06-constraint-eq", property="C06",
  edits=[("GPSKet/hilbert/discrete_fermion.py", "return self.size == other.size and self.n_elec == other.n_elec", "return self.size == other.size and sorted(self.n_elec) == sorted(other.n_elec)")],
  needs="two spaces whose electron numbers are exchanged between the spins",
  what="spaces with different magnetisation compare equal",
  demo='''
from GPSKet.hilbert import FermionicDiscreteHilbert as H
raise SystemExit(1 if H(4, n_elec=(1, 3)) == H(4, n_elec=(3, 1)) else 0)
'''),
 dict(id="s08-slater-cache-order", property="C08",
  edits=[("GPSKet/models/slater.py", """                        jnp.arange(update_sites.shape[0]),
                        reverse=True,
                    )[0]

                full_samples""", """                        jnp.arange(update_sites.shape[0]),
                    )[0]

                full_samples""")],
  needs="a cached update listing a site twice (first entry carries the change), followed by another cached update",
  what="configuration stored in the Slater cache after an update with a repeated site",
  demo='''
import numpy as np, jax, jax.numpy as jnp
from GPSKet.hilbert import FermionicDiscreteHilbert
from GPSKet.models import Slater
hi = FermionicDiscreteHilbert(4, n_elec=(2, 2))
m = Slater(hi)
x = jnp.array([[3, 1, 2, 0]], dtype=jnp.int32)
v = m.init(jax.random.PRNGKey(0), x)
_, c = m.apply(v, x, cache_intermediates=True, mutable="intermediates_cache")
# move the up electron of site 0 to site 3, listing sites 3 and 0 again with their previous occupation
y, c2 = m.apply({**v, **c}, jnp.array([[2, 1, 0, 3]], dtype=jnp.int32), cache_intermediates=True, update_sites=jnp.array([[0, 3, 3, 0]]), mutable="intermediates_cache")
z = jnp.array([[2, 1, 2, 1]], dtype=jnp.int32)
# and the up electron of site 1 to site 2
w, _ = m.apply({**v, **c2}, jnp.array([[0, 3]], dtype=jnp.int32), update_sites=jnp.array([[1, 2]]), mutable="intermediates_cache")
full = m.apply(v, jnp.array([[2, 0, 3, 1]], dtype=jnp.int32))
ok = np.allclose(np.exp(y), np.exp(m.apply(v, z))) and np.allclose(np.exp(w), np.exp(full))
print(w, full)
raise SystemExit(0 if ok else 1)
'''),
 dict(id="s09-seg-odd-magnetisation", property="C09",
  edits=[("GPSKet/models/segmented_qGPS.py", """                    self.max_up = L_half
                    self.max_dn = L_half - m""", """                    self.max_up = L_half
                    self.max_dn = L_half""")],
  needs="a chain with an odd number of sites and negative magnetisation",
  what="segmented GPS amplitudes when more than half of an odd number of spins point down",
  demo='''
import numpy as np, jax, jax.numpy as jnp, netket as nk
from GPSKet.models import SegGPS
hi = nk.hilbert.Spin(0.5, 5, total_sz=-1.5)
m = SegGPS(hi, 2)
x = jnp.array([[-1., -1., -1., -1., 1.], [1., -1., -1., -1., -1.]])
v = m.init(jax.random.PRNGKey(0), x)
e = np.asarray(v["params"]["epsilon"])
out = np.asarray(m.apply(v, x))
if not np.all(np.isfinite(out)):
    print(out); raise SystemExit(1)
for b, c in enumerate((np.asarray(x) + 1) // 2):
    tot = 0
    for k in range(2):
        p, u, d = 1, 0, 0
        for i, s in enumerate(c.astype(int)):
            p = p * e[s, k, i, u, d] if e.shape[4] > d else np.nan
            u, d = u + s, d + 1 - s
        tot += p
    if not np.allclose(out[b], tot):
        print(out[b], tot); raise SystemExit(1)
'''),
 dict(id="s10-pfaffian-pivot-sign", property="C10",
  edits=[("GPSKet/models/pfaffian.py", "jnp.where(largest_index != 0, jnp.log(-1 + 0.0j), 0.0)", "jnp.where(largest_index > 1, jnp.log(-1 + 0.0j), 0.0)")],
  needs="a pivot search which exchanges neighbouring rows of the pairing matrix",
  what="sign of the Pfaffian when the pivot is the directly following row",
  demo='''
import numpy as np, jax.numpy as jnp
from GPSKet.models.pfaffian import log_pfaffian
A = np.array([[0, .1, 2., .3], [0, 0, .4, .5], [0, 0, 0, .7], [0, 0, 0, 0]])
A = A - A.T
pf = A[0, 1] * A[2, 3] - A[0, 2] * A[1, 3] + A[0, 3] * A[1, 2]
got = np.exp(np.asarray(log_pfaffian(jnp.asarray(A))))
print(got, pf)
raise SystemExit(0 if np.allclose(got, pf) else 1)
'''),
]
