#!/usr/bin/env python3
"""Regenerates /verif/known_findings.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C14", "86724cb", "per-thread RTD kernel copies were too small when states are removed: out-of-bounds writes"),
 ("C08", "b1f7a58", "symmetry == 'spin' compared by identity: equal strings built at run time were ignored"),
 ("C01", "3127558", "LeadsTunneling.change() left tleads_array stale, so RTD energy currents used old amplitudes"),
 ("C21", "3127558", "LeadsTunneling.change() left tleads_array stale, so RTD energy currents used old amplitudes"),
 ("C17", "4a0f4e0", "update_Tba0/update_Vbbp0 ignored the normalised amplitudes"),
 ("C18", "4a0f4e0", "update_Tba0/update_Vbbp0 ignored list/array forms and the spin symmetry"),
 ("C17", "5afb79b", "sort_eigenstates reversed the caller's list in place"),
 ("C17", "1a36a3f", "set_statesdm kept the caller's lists"),
 ("C12", "81cb365", "a second remove_fock_states with 'Lin' indexing failed"),
 ("C12", "f1b33fe", "remove_coherences dropped the wrong elements for unsorted or equal-energy states"),
 ("C19", "47a01be", "get_phi0/get_phi1 failed or returned wrong elements without coherences and for removed states"),
 ("C12", "67da445", "BuilderElPh.use_all_states did not restore the electron-phonon indexing"),
 ("C13", "712afd3", "many-body input with a charge offset or unsorted states gave wrong lists, and builders shared arrays"),
 ("C20", "0b071b5", "compiled electron-phonon Lindblad used the wrong amplitude in the jump term of coherences"),
 ("C02", "0b071b5", "compiled electron-phonon Lindblad differed from the Python one"),
 ("C12", "27da6a1", "RTD energy current weighed states with the wrong energies after removing or reordering states"),
 ("C11", "3d48929", "switching kerntype lost state restrictions and rejected compiled Approach classes"),
 ("C01", "d271aeb", "compiled approaches kept views of the lead, dot and bath parameters of the first solve"),
 ("C10", "47012a5", "changing mfreeq, solmethod, norm_row or make_kern_copy between solves was ignored or crashed"),
 ("C10", "1017d12", "off_diag_corrections changed between solves of RTD was ignored or crashed"),
 ("C01", "7f5c690", "RTD reused the Ozaki poles of the temperatures of earlier solves"),
 ("C09", "25c8082", "RTD took lead temperatures closer than 1e-5 energy units as equal: wrong currents in small units"),
 ("C09", "9eacae2", "RTD took level splittings below 1e-10 energy units as degenerate: wrong currents in small units"),
 ("C09", "598e53d", "the Python RTD failed for different lead temperatures below 1e-8 energy units"),
 ("C15", "d639e59", "bose and diff_fermi of large arguments with sign=-1 overflowed"),
 ("C12", "1d6af24", "RTD reported NaN energy currents after a restriction removed all complex amplitudes"),
 ("C18", "179676b", "coulomb given as a floating point array was rejected with a TypeError"),
 ("C18", "ca466e8", "change() ignored zero coulomb matrix elements given as a list or array"),
 ("C15", "82370d6", "polygamma returned wrong values for arguments with negative real part"),
 ("C23", "47a2dd7", "mfreeq=True (or a switch with it set) made the 2vN approaches fail with an AttributeError"),
 ("C01", "RTDNOISE", "RTD results jumped by 1e-3 with rounding noise in the imaginary part of the amplitude products"),
]
FINDINGS = json.load(open(os.path.join(V, 'findings', 'findings.json')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout
noise = [l.split()[0] for l in log.splitlines() if 'rounding noise in the imaginary' in l][0]
fixed = ['fixed: property=%s %s %s' % (a, noise if b == 'RTDNOISE' else b, c) for a, b, c in FIXED]
json.dump(dict(findings=FINDINGS, fixed=fixed), open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(FINDINGS), 'findings', len(fixed), 'fixed')
