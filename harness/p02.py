"""P02: requests reach the operation their action or body element names (spec/Dispatch.tla, DispatchTrace.tla)."""
import vlib
from dispatching import ACTIONS, Content, Harness, ServiceGenerator, action_headers
from p01 import answer, present


def near(r, action):
    """Something which looks like the action but differs."""
    ways = [action + '/', action + ' ', ' ' + action, action.upper(), action.lower(), action[:-1], action[1:], action + action,
            action.replace(':', ''), action + '#x', 'urn:none', action.swapcase(), action + '?', action.rpartition('/')[2], action.partition(';')[0]]
    return r.choice([w for w in ways if w] or ['x'])


def some_request(r, g, s):
    op = r.choice(s.ops)
    action = None
    roll = r.random()
    if roll < 0.3:
        action = op.action or None
    elif roll < 0.4:
        action = r.choice(s.ops).action or r.choice(ACTIONS)
    elif roll < 0.6:
        action = near(r, r.choice(s.ops).action or r.choice(ACTIONS))
        if s.version == 'soap12' and action.strip() != action:
            action = action.strip() or 'x'  # whether such blanks count is a matter of the quotes
    elif roll < 0.65:
        action = r.choice(s.ops).input['n']
    subs = [e for e in s.elements if e['subst'] == op.input['n']]
    roll = r.random()
    if roll < 0.35 and subs:
        el = r.choice(subs)
    elif roll < 0.55:
        el = r.choice(s.elements)
    else:
        el = op.input
    tree = g.body_tree(s, el)
    env = {'REQUEST_METHOD': 'POST', **action_headers(r, s, action)}
    return Content(env, present(r, s.envelope(None, tree)))


def generate(r, first, count):
    cases = []
    for k in range(first, first + count):
        g = ServiceGenerator(r, top=r.choice([1, 2]), facets=False)
        s = g.service(ops=r.randint(1, 6), headers=0, imports=0.2, same_input=0.3)
        try:
            h = Harness(s)
            h.handler = answer(r, g, s)
            for n in range(1, 11):
                h.dispatch(some_request(r, g, s), n)
            cases.append(h.case(10))
        finally:
            s.close()
    return cases


def body(check):
    cases = vlib.generate(generate, 'p02', vlib.scale(1400, 12000))
    check.sample(cases[0])
    for start in range(0, len(cases), 2000):
        check.validate('DispatchTrace', cases[start:start + 2000], timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P02', body))
