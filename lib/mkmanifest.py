"""Write MANIFEST.json from the table below (run by hand)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ('Explored up to the bounds in DESIGN.md on builds made from the working tree (64-bit limbs with assembly and 32-bit '
         'portable limbs under AddressSanitizer). Trusts TLC, the Java evaluation of the operators (compared with '
         'their TLA+ definitions) and the driver.')
T = {
    'C01': 'TLA+ hash definitions; TLC-generated cuttings replayed; recorded traces validated by TLC',
    'C02': 'TLA+ HMAC definition; TLC-generated cuttings replayed; recorded traces validated by TLC',
    'C03': 'TLA+ block cipher definitions; recorded traces validated by TLC',
    'C04': 'TLA+ cipher stream state machine; TLC-generated cuttings replayed; recorded traces validated by TLC',
    'C05': 'TLA+ GCM/CCM/EAX definitions and stream state machine; recorded traces validated by TLC',
    'C06': 'TLA+ stream cipher definitions and keystream position machine; TLC-generated cuttings replayed; recorded traces validated by TLC',
    'C07': 'TLA+ Poly1305/AEAD/secretbox definitions; recorded traces validated by TLC',
    'C08': 'TLA+ SP 800-90A generators; TLC-generated call histories replayed; recorded traces validated by TLC',
    'C09': 'TLA+ model of seeding over processes and threads; TLC-generated schedules replayed; recorded traces validated by TLC',
    'C10': 'TLA+ model of the entropy request under faults; TLC-generated fault sequences replayed; recorded traces validated by TLC',
    'C11': 'TLA+ base16/32/58/64 definitions; recorded traces validated by TLC',
    'C12': 'TLA+ bech32/cashaddr definitions; recorded traces validated by TLC',
    'C13': 'TLA+ key derivation definitions; recorded traces validated by TLC',
    'C14': 'TLA+ definition of RSA signatures over DER keys; recorded traces with crafted encodings validated by TLC',
    'C15': 'TLA+ definition of RSA encryption and veiling; recorded traces with crafted blocks validated by TLC',
    'C16': 'TLA+ definition of the key formats and key relations; recorded traces validated by TLC',
    'C17': 'TLA+ definition of DSA; recorded traces validated by TLC',
    'C18': 'TLA+ definition of curves and ECDSA checked on small curves; recorded traces validated by TLC',
    'C19': 'TLA+ group law and key operations as a state machine; generated programs replayed; recorded traces validated by TLC',
    'C20': 'TLA+ definition of Schnorr signatures and batches checked on small curves; recorded traces validated by TLC',
    'C21': 'TLA+ definition of EdDSA with torsion checked on small curves; recorded traces of keys, signatures and batches validated by TLC',
    'C22': 'TLA+ definition of Montgomery ladders, ECDH keys and conversions checked on small curves; recorded traces validated by TLC',
    'C23': 'TLA+ definition of the ristretto and decaf groups checked on small curves; recorded traces of keys and encodings validated by TLC',
    'C24': 'TLA+ definition of the maps to curves and their inverses checked on small curves; recorded traces validated by TLC',
    'C25': 'TLA+ integer arithmetic on a register file; generated programs with aliasing replayed; recorded traces validated by TLC',
    'C26': 'TLA+ number theory definitions; generated programs replayed; recorded traces validated by TLC',
    'C27': 'TLA+ leakage machine over the masking idioms; traces of instrumented builds recorded for many secrets and validated by TLC',
    'C28': 'TLA+ definitions of the utilities; recorded traces validated by TLC',
    'C29': 'TLA+ definition of the generator and model of an intruder; histories replayed, recorded traces validated by TLC',
    'C30': 'TLA+ model of erasing; what is given back to the allocator is recorded and validated by TLC',
    'C31': 'TLA+ model of modes without a stream; its histories replayed, recorded traces validated by TLC',
}
NA = {}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
for p in props:
    if p not in T and p not in NA:
        NA[p] = 'check not built yet'
m = {
    'version': 1,
    'setup_cmd': 'sh setup.sh',
    'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile the library sources as they are', 'source_commits': []},
    'checks': [{'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py ' + p,
                'evidence_file': 'evidence/%s.json' % p, 'technique': T[p], 'level': 'model_checking', 'level_note': TRUST}
               for p in props if p in T],
    'not_applicable': [{'property': p, 'reason': NA[p]} for p in props if p in NA],
    'notes': 'TLA+ specifications in spec/, evaluated by TLC; see DESIGN.md.',
}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
