"""P16: refused operations change nothing, repeated elements keep their limits (spec/Objects.tla and its replays)."""
import objects
import vlib
from p15 import histories


def list_histories(r, first, count):
    return histories(r, first, count, list_weight=6)


def body(check):
    cases, count = objects.explore(check, *vlib.scale((4, 4), (4, 6)))
    check.sample(cases[0]['events'][-1])
    objects.only('P16', check, cases, 'ObjectSpace-replay')
    check.replayed(count)
    cases = vlib.generate(list_histories, 'p16', vlib.scale(1500, 20000))
    check.sample(cases[0]['events'][-1])
    for start in range(0, len(cases), 4000):
        objects.only('P16', check, cases[start:start + 4000], 'ObjectTrace')


if __name__ == '__main__':
    raise SystemExit(vlib.main('P16', body))
