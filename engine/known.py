"""Known findings: a violation is one if function, label and case agree."""


def match(known, v):
    return [f for f in known if f['fn'] == v['fn'] and f['label'] == v['label'] and (f.get('case') is None or f['case'] == v['case'])]
