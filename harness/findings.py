"""Known findings: genuine defects that are recorded instead of repaired (see known_findings.txt)."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _load():
    res = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            # "finding: property=<id> clause=<clause,...> case=<case id prefix> <what fails>"
            if line.startswith('finding:'):
                f = dict(x.split('=', 1) for x in line.split()[1:4])
                f['text'] = ' '.join(line.split()[4:])
                res.append(f)
    return res


def known(prop, v):
    """The listed finding that explains violation v = (case, event, clauses, data), or None."""
    for f in _load():
        if f['property'] == prop and v[0].startswith(f['case']) and v[2] <= set(f['clause'].split(',')):
            return f['text']
    return None
