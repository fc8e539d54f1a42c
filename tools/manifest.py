"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from sa.props import PROPS
NA = {
 'N01': 'the written digits and the parsed value are run-time floating point quantities computed inside std formatting and the lexical crate; no static argument in reach bounds their rounding, and executing samples is another technique',
 'L05': 'that the parent of a joint is the one whose block encloses it relates the stack of open blocks, whose height is unbounded, to the contents of the joint list (the position stored in the last joint of a given depth); the domain used here joins list elements to patterns in which that relation between two elements is lost, and a check of the rest (position, root first) would leave the property open',
 'L09': 'which token of which earlier line ends up in which field quantifies over the whole sequence of lines read; the values are terms over the line they came from, but a joint is finished lines later, after joins that keep numbers and lengths and not the texts, so no obligation about the origin of a stored name or number can be discharged',
 'M01': 'the arms of the macro are rewritten by the compiler separately for each use, from token trees of unbounded length; only their expansion can be analysed, so a static argument would hold for the skeletons written down in a harness and not for every accepted input',
 'N02': 'equality of the reloaded object composes number rounding (N01) with two unbounded loops over a common text; the parts a static analysis can settle are claimed separately (W03, W04, W06, W08, L02, L04)',
}
TECH = {}
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for i in props:
    if i in PROPS:
        doc = ' '.join((PROPS[i].__doc__ or '').split())
        tech = TECH.get(i) or getattr(PROPS[i], 'technique', 'abstract interpretation of compiler MIR (relational integer facts, sequence contents, loop fixpoints)')
        checks.append({'property': i, 'quick_cmd': 'python3 -m sa %s quick' % i, 'thorough_cmd': 'python3 -m sa %s thorough' % i,
                       'technique': tech, 'level': 'other',
                       'level_note': doc + ' Trusts the compiler front end, the MIR extractor, the interpreter and its transfer functions for library calls; obligations the analysis cannot decide are listed in the evidence as undecided and do not alarm.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -m sa.build target/setup.json && rm -f target/setup.json', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every check compiles /repo\'s working tree together with the harness crate roots/ and analyses the resulting MIR.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
