"""setup_cmd: nothing has to be compiled; shows that the engine imports and can see /repo."""
import sys
sys.dont_write_bytecode = True
from . import core  # noqa

core.import_target()
from . import choice  # noqa

# the choice-tree explorer visits every leaf exactly once
seen = []


def _run(prefix):
    c = choice.Chooser(prefix)
    seen.append((c.pick(2), c.pick(3) if c.choices[0] else 0, c.pick(2)))
    return c


list(choice.explore(_run))
assert len(seen) == len(set(seen)) == 8, seen
seen.clear()
list(choice.explore(_run, bound=1))
assert len(seen) == len(set(seen)) == 3, seen
print('setup ok')
