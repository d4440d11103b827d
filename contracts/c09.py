"""C09: the transcript hash covers the handshake, in order."""
from pyvc.harness import *
from pyvc.harness import Task
from pyvc import models
from pyvc.models import hash_of, SIZES

TASKS = []

# RFC 8446 section 4: the messages in the order they are sent; '?' when they are not always
FLOW = [('client', 1), ('server', 2), ('server', 8), ('server', 13, '?'), ('server', 11), ('server', 15), ('server', 20),
        ('client', 5, '?'), ('client', 11, '?'), ('client', 15, '?'), ('client', 20)]
RETRY = [('client', 1), ('server', 2)]
TYPES = [1, 2, 4, 5, 8, 11, 13, 15, 20, 24]


def task(name, **o):
    def deco(f):
        TASKS.append(Task(name, f, **o))
        return f
    return deco


def new(hashes):
    import hashlib
    from siotls.transcript import Transcript
    return Transcript([getattr(hashlib, h) for h in hashes])


def kind(n):
    from siotls.iana import HandshakeType
    return HandshakeType(n)


def check(tag, t, hashes, text):
    got, e = attempt(t.digests)
    prove(f'{tag}: a digest of each hash', e is None and set(got) == set(hashes), exc_name(e))
    for h in hashes:
        prove(f'{tag}: {h} of the messages so far, in order', beq(got[h], hash_of(h, text)))
    if len(hashes) == 1:
        prove(f'{tag}: the digest is that of the hash negotiated', beq(t.digest(), hash_of(hashes[0], text)))


def allowed(flow, i):
    """positions of the messages that may come at position i; client CV without certificate left open"""
    out = []
    while i < len(flow):
        out.append(i)
        if len(flow[i]) == 2:
            break
        i += 1
    return out


def prefixes(flow):
    """the sequences of positions a handshake may have gone through"""
    out = [[]]
    for i, step in enumerate(flow):
        out += [p + [i] for p in out if i in allowed(flow, p[-1] + 1 if p else 0) and step != ('client', 15, '?') or
                p and step == ('client', 15, '?') and p[-1] == i - 1]
    return out


def run(hrr, me, hashes, chosen):
    """every handshake, every point of it, every message there"""
    flow = (RETRY if hrr else []) + FLOW
    every = prefixes(flow)

    def f():
        import hashlib
        names = hashes
        t = new(names)
        text = b''
        path = choose(every)
        for n, i in enumerate(path):
            side, ty = flow[i][:2]
            hello = (side, ty) == ('server', 2)
            if hello and me == 'server' and names != (chosen,):
                _, e = attempt(t.post_init, getattr(hashlib, chosen))
                prove('the hash negotiated is selected', e is None, exc_name(e))
                names = (chosen,)
            if hello and hrr and i == 1 and me == 'server':
                # the server sends a retry after it has replaced the first hello
                _, e = attempt(t.do_hrr_dance, me, t.digest())
                prove('retry: the first hello is replaced', e is None, exc_name(e))
                text = concat(bytes([254, 0, 0, SIZES[chosen][0]]), hash_of(chosen, text))
            m = bvar(f'message {n}')
            before, digests = text, t.digests() if hello and hrr and i == 1 and me == 'client' else None
            _, e = attempt(t.update, m, side, kind(ty))
            prove('the next message of the handshake is accepted', e is None, f'{side} {ty}: {exc_name(e)}')
            if e is not None:
                return
            text = concat(text, m)
            if hello and me == 'client' and names != (chosen,):
                _, e = attempt(t.post_init, getattr(hashlib, chosen))
                prove('the hash negotiated is selected', e is None, exc_name(e))
                names = (chosen,)
            if digests:
                _, e = attempt(t.do_hrr_dance, me, digests[chosen])
                prove('retry: the first hello is replaced', e is None, exc_name(e))
                text = concat(bytes([254, 0, 0, SIZES[chosen][0]]), hash_of(chosen, before), m)
        check('the messages so far', t, names, text)
        last = path[-1] if path else -1
        if last == len(flow) - 1:
            side, ty = choose(['client', 'server']), choose(TYPES)
            _, e = attempt(t.update, bvar('later message'), side, kind(ty))
            check('after the handshake', t, names, text)
            cover('after')
        elif not (hrr and last == 0 and me == 'server'):
            ok = {flow[j][:2] for j in allowed(flow, last + 1)}
            side, ty = choose([(side, ty) for side in ('client', 'server') for ty in TYPES if (side, ty) not in ok])
            _, e = attempt(t.update, bvar('stray message'), side, kind(ty))
            from siotls.contents.alerts import UnexpectedMessage
            prove('a message out of order is refused with an unexpected message alert', isinstance(e, UnexpectedMessage),
                  f'{side} {ty}: {exc_name(e)}')
            check('a message out of order', t, names, text)
            cover('out of order')
    return f


for _h in (False, True):
    for _m in ('client', 'server'):
        for _all, _one in ((('sha256',), 'sha256'), (('sha256', 'sha384'), 'sha384'), (('sha384', 'sha256'), 'sha384')):
            TASKS.append(Task(f"{_m}, {'a retry' if _h else 'no retry'}, {_one} of {' and '.join(_all)}", run(_h, _m, _all, _one), cost=5))


@task('parts')
def t_parts():
    """whatever the hashes, at least one is needed and only one of them is selected"""
    import hashlib
    from siotls.transcript import Transcript
    _, e = attempt(Transcript, [])
    prove('without a hash there is no transcript', isinstance(e, ValueError), exc_name(e))
    t = new(('sha256',))
    _, e = attempt(t.post_init, hashlib.sha384)
    prove('a hash that is not computed cannot be selected', isinstance(e, ValueError), exc_name(e))
    cover('parts')
