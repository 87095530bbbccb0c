#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
T = ('contract-based deductive verification of the real code (C via LLVM IR and the ARM assembly): function contracts, inferred and '
     'inductively checked loop invariants, obligations discharged by GF(2) normalisation, BDDs and z3')
BASE = ('Every obligation is discharged for all inputs and all lengths, function by function, from the current source. Trusted: the clang front '
        'end and sroa, objdump, the verification engine, z3, the specification in engine/spec.py (checked against the KATs). Assumed: '
        'non-overlapping valid buffers, little endian, unaligned word access. ')
N = {
    'C01': 'Contracts of isap_rk, isap_mac, isap_enc, the permutations and crypto_aead_encrypt in all 51 build configurations.',
    'C02': 'Contracts of isap_mac, isap_enc and crypto_aead_decrypt; composition with C01 through the common specification.',
    'C03': 'Decision of crypto_aead_decrypt against the specified tag; in the stp variants against the images of both tags under the 7-round permutation.',
    'C04': 'Frame condition of crypto_aead_decrypt on every rejecting path.',
    'C05': 'Bounds of every access, frame of the inputs and termination measures of every loop.',
    'C06': 'Contract of crypto_hash against Ascon-Hash.',
    'C07': 'Every permutation macro or function is verified alone on an arbitrary state through an entry point that includes the real source.',
    'C08': 'Contract of isap_rk (or of the code that inlines it): state, bit order and one permutation call per bit.',
    'C09': 'Contract of isap_mac: the absorbed sequence of blocks, padding, domain separation and the final re-keying.',
    'C10': 'No access to mutable static storage, no dependence on undefined bytes, in every function under contract.',
    'C11': 'Every branch condition, address, shift amount and division is proved to be independent of data (except the public decision); '
           'decided on the IR and the assembly text, later compiler stages are outside.',
    'C12': 'Value compared in crypto_aead_decrypt of the six stp builds: images under the 7-round permutation keyed with the authentication state.',
}
BND = set()
LV = {k: 'proof' for k in N}
m = {'version': 1, 'setup_cmd': 'true',
     'checks': [{'property': k, 'quick_cmd': f'./check.py {k}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.py {k}',
                 'evidence_file': f'evidence/{k}.json', 'technique': T, 'level': LV[k],
                 'level_note': BASE + v + (' Bounded stand-in (native executions against the oracle, not counted as proved): '
                 'crypto_aead_encrypt of isapa128av20/avx_512.' if k in BND else '')} for k, v in N.items()],
     'not_applicable': [], 'notes': 'No hooks in /repo: the checks read the unmodified sources. See DESIGN.md.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
