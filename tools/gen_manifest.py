#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses in props/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('differential testing against boost cpp_int over structured operands and register-machine histories', 'results compared by printed text and by behaviour against a fresh integer; operands up to ~600 digits'),
 'C02': ('differential testing against boost cpp_int, dividends constructed as q*b+r', 'truncated division of cpp_int is the reference; operands up to ~400 digits'),
 'C03': ('grammar-based generation and mutation of literals, token streams and machine limits with a digit-string oracle', 'NUL bytes inside stream tokens are not generated'),
 'C04': ('differential comparison against cpp_int order; metamorphic equality of differently computed values', 'equal values come from about twenty computations'),
 'C05': ('differential testing against cpp_int and defining inequalities, arguments built around perfect powers', 'result size bounded by ~800 digits'),
 'C06': ('differential testing against trial division and Euclid on reference integers', 'primality of numbers without small factor only up to ~2.3e6, since the code under test divides by trial'),
 'C07': ('property-based testing with the random source interposed by the generator', 'std::random_device is replaced by generated seeds; distribution quality is not claimed'),
 'C08': ('differential testing against exact 128-bit rationals, filtered by representability of the exact result', 'results that do not fit int are outside the property'),
 'C09': ('differential testing against exact rational order; hash and container agreement', 'whole int range'),
 'C10': ('differential testing against gcd over the common denominator', 'results that do not fit int are outside the property'),
 'C11': ('grammar-based generation and mutation of token streams with a token-value oracle', 'undecided spellings (1. and .5, control characters) are not generated as malformed'),
 'C12': ('differential testing against long double complex arithmetic, part by part; exact Gaussian-integer histories', 'tolerance 1e-13 of the terms that each part is the sum of; moderate magnitudes'),
 'C13': ('differential testing against exp(e*log b) in long double; symmetric and discriminating equality', 'tolerance 1e-12 times the condition of the power'),
}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'techniques.py')) else None
checks = []
for line in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(line)['id']
    if i not in T or not os.path.exists(os.path.join(V, 'props', i + '.cpp')):
        continue
    tech, note = T[i]
    checks.append({'property': i, 'quick_cmd': './check.py ' + i, 'thorough_cmd': './check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': 'property-based testing: ' + tech, 'level': 'exploration',
                   'level_note': 'Generated-input search, optimised build and ASan/UBSan build; ' + note + '. Trusts the oracle, compiler and standard library; shows no absence.'})
done = {c['property'] for c in checks}
na = [{'property': json.loads(l)['id'], 'reason': 'check not built yet'} for l in open(os.path.join(V, 'properties.jsonl')) if json.loads(l)['id'] not in done]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check builds its harness from /repo/sources and is self-contained; VERIF_SEED is the only source of randomness.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
