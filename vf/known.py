"""The findings recorded in known_findings.txt."""
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    'known_findings.txt')


def listed(pid):
    """{id: description} of the open findings of a property."""
    out = {}
    with open(PATH) as f:
        for line in f:
            if line.startswith('open: property=%s ' % pid):
                ident, what = line.split(' ', 2)[2].strip().split(' ', 1)
                out[ident[3:]] = what
    return out
