"""Regenerate known_findings.json from this list (run by hand; no check ever writes it)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run("git -C /repo log --format=%h%x09%s", shell=True, capture_output=True, text=True).stdout.splitlines()
C = {}
for l in log:
    h, s = l.split("\t", 1)
    C[s.replace("fix: ", "")] = h
F = [  # (property, mechanism, commit subject, what failed)
 ("C06", "power", "power of a number-constrained fermionic Hilbert space", "raising a number-constrained fermionic Hilbert space to a power did not give the composed system"),
 ("C01", "hopping-parity", "parity of a hop when no cumulative count is passed", "parity of a hop was wrong when no cumulative count was passed"),
 ("C01", "hubbard-no-edges", "set the Hubbard sections also for a lattice without edges", "Hubbard rows on a lattice without edges left the sections undefined"),
 ("C02", "asep-hermitian", "ASEP is hermitian only if forward and backward boundary rates agree", "the ASEP generator reported itself hermitian for unequal boundary rates"),
 ("C02", "heisenberg-otf-base", "build the on-the-fly Heisenberg Hamiltonian from the Heisenberg operator", "the on-the-fly Heisenberg Hamiltonian could not be built"),
 ("C02", "single-sign-rule", "accept a single sign-rule flag for the J1-J2 Hamiltonian", "a single sign-rule flag with non-zero J2 raised"),
 ("C07", "plaquette-where", "pass the values of jnp.where by position in the plaquette fast update", "plaquette fast updates raised"),
 ("C07", "plaquette-repeated-site", "keep the actual update of a repeatedly listed site in the plaquette cache", "plaquette cache lost an update when its site was listed again"),
 ("C08", "sj-fast", "support the advertised fast updates in the Slater-Jastrow model", "Slater-Jastrow advertises fast updates but did not accept them"),
 ("C08", "asymm-fast", "support the advertised fast updates in the antisymmetric qGPS models", "antisymmetric qGPS models advertise fast updates but did not accept them"),
 ("C10", "asymm-coeffs", "apply the antisymmetric qGPS coefficients to the determinants", "coefficients of the antisymmetric qGPS were broadcast over the wrong axis"),
 ("C10", "pfaffian-ninf", "use -jnp.inf instead of the removed jnp.NINF in the Pfaffian", "Pfaffian evaluation raised AttributeError"),
 ("C10", "pfaffian-rotation-axis", "expand the rotation dimension of the general Pfaffian state", "the general Pfaffian state summed over the batch"),
 ("C10", "pfaffian-singular", "a singular pairing matrix has zero Pfaffian instead of NaN", "singular pairing matrices gave NaN"),
 ("C10", "cpd-float-samples", "evaluate the CPD backflow also for floating point samples", "CPD backflow raised for floating point samples"),
 ("C08", "cpd-repeated-site", "do not apply the CPD backflow update of a repeatedly listed site twice", "CPD backflow applied the update of a repeated site twice"),
 ("C10", "bfj-order", "pass orbitals and corrections of the backflow-Jastrow model in the right order", "backflow-Jastrow exchanged orbitals and corrections"),
 ("C08", "bfj-fast", "support the advertised fast updates in the backflow-Jastrow model", "backflow-Jastrow advertises fast updates but did not accept them"),
 ("C11", "ar-constrained-only", "only constrain the autoregressive conditionals in constrained Hilbert spaces", "autoregressive models masked conditionals in unconstrained spaces"),
 ("C11", "ar-count-spins", "only count spins in constrained autoregressive models", "autoregressive models in unconstrained spaces required a count of spins"),
 ("C27", "gps-init-dtype", "choose the qGPS initialisation by the dtype of the parameters", "default GPS initialisation ignored the parameter dtype"),
 ("C07", "armpfull-fast", "support the advertised fast updates in the modulus-phase autoregressive qGPS", "modulus-phase autoregressive qGPS advertises fast updates but did not accept them"),
 ("C07", "ar-cache-batch", "cache the autoregressive context products with leading batch dimension", "autoregressive cache could not be selected per chain by the fast sampler"),
 ("C15", "exchange-rule-base", "base the exchange rule with updates on the exchange rule of NetKet", "the fast exchange sampler could not be constructed"),
 ("C15", "accepted-per-chain", "count the accepted moves of the fast Metropolis sampler per chain", "accepted moves were counted over all chains"),
 ("C15", "log-prob-kept", "keep the log-probability of the fast Metropolis sampler state in step with its configurations", "sampler state kept no log-probability of its configurations"),
 ("C03", "empty-channel", "evaluate on-the-fly ab initio energies also with empty or full spin channels", "on-the-fly ab-initio energies raised for empty or full spin channels"),
 ("C10", "negative-characters", "allow negative characters in the spin projection", "negative characters in the spin projection gave NaN"),
 ("C06", "random-dtype", "random fermionic configurations in the requested dtype also without electron number constraint", "random configurations of unconstrained fermionic spaces ignored the requested dtype"),
 ("C04", "local-state-order", "map local indices to spins by the ordering of the Hilbert space in on-the-fly energies", "on-the-fly Heisenberg energies assumed one ordering of local spin states"),
]
extra = os.path.join(V, "tools", "findings_more.py")
if os.path.exists(extra):
    exec(open(extra).read())
out = []
for p, m, subj, what in F:
    h = C.pop(subj)
    out.append({"property": p, "mechanism": m, "status": "fixed", "commit": h, "what": f"fixed: property={p} {h} {what}"})
left = [s for s in C if s != "base"]
if left:
    print("not recorded:", left)
out += globals().get("KNOWN", [])
json.dump({"findings": out}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out), "entries")
