"""Writes MANIFEST.json from the check modules present."""
import importlib
import json
import os
from . import core

SETUP = '/opt/venv/bin/python -m mc.selfcheck'


def main():
    core.import_target()
    checks, na = [], []
    for n in range(1, 21):
        pid = 'C%02d' % n
        try:
            m = importlib.import_module('mc.checks.' + pid.lower())
        except ModuleNotFoundError:
            na.append(dict(property=pid, reason='check not built yet'))
            continue
        checks.append(dict(property=pid, quick_cmd='./check %s' % pid, thorough_cmd='./check %s --tier thorough' % pid,
                           evidence_file='evidence/%s.json' % pid, technique=m.TECHNIQUE, level='model_checking',
                           level_note=m.LEVEL_NOTE))
    man = dict(version=1, setup_cmd=SETUP, checks=checks, not_applicable=na)
    with open(os.path.join(core.VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
