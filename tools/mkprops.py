#!/usr/bin/python3
"""Writes /verif/properties.jsonl (kept as code only for readability)."""
import json, os
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(quant.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict([('files', files),
                                ('mechanism', [dict(name=n, where=w) for n, w in mech])] +
                               ([('state', [dict(name=state, meaning='see statement')])] if state else []) +
                               [('observe_at', [observe]), ('hook_needed', hook)])))


PARS = 'freesif/sequentialparser/parsers.py'
SEQ = 'freesif/sequentialparser/sequentialfiles.py'
S2H = 'freesif/sequentialparser/sif2hdf5.py'
FILE = 'freesif/data/file.py'
SIFD = 'freesif/data/sifdata.py'
STR = 'freesif/data/strucdata.py'
HYD = 'freesif/data/hydrodata.py'
HLP = 'freesif/data/helpers.py'
WR = 'freesif/utils/writers.py'
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props.txt')).read())
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
