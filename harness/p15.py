"""P15: objects are independent of one another and of their class (spec/Objects.tla, ObjectSpace.tla, ObjectTrace.tla)."""
import objects
import simple
import vlib
from model import Generator, Options

BUILTIN = [b for b in simple.BUILTIN if b not in simple.OTHER_TYPES]


def histories(r, first, count, steps=14, **options):
    cases = []
    for k in range(first, first + count):
        g = Generator(r, Options(defaults=k % 2 == 0, override=k % 3 == 0, builtin=BUILTIN, string_types=('string',), top=3, **options))
        m = g.build()
        try:
            d = objects.Driver(r, g, m)
            for _ in range(steps):
                d.step()
            cases.append({'model': m.spec(), 'events': d.w.events})
        finally:
            m.close()
    return cases


def body(check):
    cases, count = objects.explore(check, *vlib.scale((4, 4), (4, 6)))
    check.sample(cases[0]['events'][-1])
    objects.only('P15', check, cases, 'ObjectSpace-replay')
    check.replayed(count)
    cases = vlib.generate(histories, 'p15', vlib.scale(1500, 20000))
    check.sample(cases[0]['events'][-1])
    for start in range(0, len(cases), 4000):
        objects.only('P15', check, cases[start:start + 4000], 'ObjectTrace')


if __name__ == '__main__':
    raise SystemExit(vlib.main('P15', body))
