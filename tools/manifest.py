#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
CONN = 'TLA+ (TLC): abstract machine Turtls.tla explored exhaustively and its behaviours replayed into libturtls.so; recorded executions judged step by step by TurtlsTrace.tla'
CRY = 'TLA+ (TLC): recorded executions of crylib judged by CrylibTrace.tla against TLA+ definitions of the algorithms'
done = set(os.environ.get('DONE', '').split(',')) - {''} or set(props)
checks, na = [], []
for p in props:
    if p not in done:
        na.append(dict(property=p, reason='check under construction')); continue
    conn = p < 'C20'
    checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --thorough' % p,
        technique=CONN if conn else CRY, level='model_checking',
        level_note=('Every recorded execution of the real library through its C interface must be a behaviour of the TLA+ specification (all bytes included); the executions are enumerated per class of server behaviour, IO schedule and call order, not exhaustive over byte strings. Trusts TLC, the driver and the getrandom interposer.'
                    if conn else 'Every recorded result of the real crypto library must equal the value the TLA+ definition gives; tiny instances exhaustively, large ones on structured and random inputs. Trusts TLC and the Java overrides, which are themselves compared with the TLA+ definitions.')))
m = dict(version=1, setup_cmd='python3 harness/build.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the public C interface, an interposed getrandom and crylib\'s public API suffice.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
