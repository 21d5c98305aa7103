"""Options that are combined in a Flag must stay distinguishable: every name of its own has at least one bit that no other of them has,
and the combined name 'All' has the bits of all of them."""
from .facts import AnalysisError


def distinct(rep, fx, q, key, combined=('All', 'None')):
    e = fx.enums.get(q)
    if e is None:
        raise AnalysisError('no enumeration ' + q)
    loc = q
    own = [(x[0], x[1]) for x in e['v'] if x[0] not in combined]
    n = 0
    for i, (a, v) in enumerate(own):
        n += 1
        rep.check(v != 0, '%s:bit:%s' % (key, a), loc, '%s::%s has no bit' % (q, a))
        for b, w in own[:i]:
            rep.check(not v & w, '%s:bits:%s:%s' % (key, a, b), loc, '%s::%s (%#x) and %s (%#x) share bits: asking for one asks for the other' % (q, a, v, b, w))
    for x in e['v']:
        if x[0] == 'All':
            lost = [a for a, v in own if x[1] & v != v]
            rep.check(not lost, key + ':all', loc, '%s::All does not contain %s' % (q, ', '.join(lost)))
    rep.count('options of ' + q.split('::')[-1], n)
