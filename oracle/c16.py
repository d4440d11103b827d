"""C16: every combination of what may be configured, on both sides, with real keys and certificates."""
import dataclasses
import itertools
from oracle.run import case, Fail
from oracle import tls, live, pki

conf, conn, iana = tls.siotls()
SUITES, GROUPS, ALGS = list(iana.CipherSuites), list(iana.NamedGroup), list(iana.SignatureScheme)
FRAGMENTS = list(iana.MaxFragmentLengthOctets)


def need(x, what):
    if not x:
        raise Fail(what)


def combos(o):
    flags = ('trust', 'keys', 'private', 'public', 'chain', 'hosts', 'revocation')
    base = dict(suites=3, groups=2, algs=3, fragment=len(FRAGMENTS) - 1)
    for side in ('client', 'server'):
        for bits in itertools.product((0, 1), repeat=len(flags)):
            yield dict(side=side, **base, **dict(zip(flags, bits, strict=True)))
    for side in ('client', 'server'):
        for n in itertools.product((0, 1, 5), repeat=3):
            for f in range(len(FRAGMENTS)):
                yield dict(side=side, suites=n[0], groups=n[1], algs=n[2], fragment=f, trust=0, keys=0, private=1, public=1, chain=1, hosts=0,
                           revocation=0)
    r = o.rng
    while True:
        yield dict(side=r.choice(['client', 'server']), suites=r.randrange(6), groups=r.randrange(6), algs=r.randrange(6),
                   fragment=r.randrange(len(FRAGMENTS)), **{f: r.randrange(3) for f in flags})


def chain(n):
    c, k = pki.leaf()
    return [None, [c, pki.ca()[0]], [], [c]][n]


@case(combos)
def configuration(side, suites, groups, algs, fragment, trust, keys, private, public, chain, hosts, revocation):
    """accepted exactly when consistent; what is derived; nothing can be changed"""
    c, k = pki.leaf()
    d = dict(cipher_suites=SUITES[:suites], key_exchanges=GROUPS[:groups], signature_algorithms=ALGS[:algs],
             max_fragment_length=FRAGMENTS[fragment], trust_store=live.store() if trust else None,
             trusted_public_keys=[k.public_key()] * keys, private_key=k if private else None,
             public_key=k.public_key() if public else None, certificate_chain=[None, [c, pki.ca()[0]], []][chain],
             server_hostnames=['a.example', 'b.example'][:hosts], revocation_list=object() if revocation else None,
             alpn=[iana.ALPNProtocol.HTTP_1_1] if revocation else [], log_keys=bool(hosts), can_echo_heartbeat=bool(keys))
    ok = suites > 0 and groups > 0 and algs > 0
    if side == 'server':
        ok = ok and private > 0 and (chain == 1 or public > 0) and FRAGMENTS[fragment] == 16384
    else:
        ok = ok and hosts == 0
    try:
        x = conf.TLSConfiguration(side, **d)
    except ValueError as e:
        need(not ok, f'a consistent configuration is refused: {e!r}')
        return
    except Exception as e:
        raise Fail(f'a configuration is refused with {e!r}') from e
    need(ok, 'an inconsistent configuration is accepted')
    need(x.require_peer_authentication == bool(trust or keys), f'peer authentication is {x.require_peer_authentication}')
    own = ([0] if chain == 1 else []) + ([2] if public else [])
    peer = ([0] if trust else []) + ([2] if keys else [])
    need([int(t) for t in x.certificate_types] == own, f'our certificate types are {x.certificate_types}')
    need([int(t) for t in x.peer_certificate_types] == peer, f'those of the peer are {x.peer_certificate_types}')
    need(x.side == side and x.other_side != side and {x.side, x.other_side} == {'client', 'server'}, f'the other side is {x.other_side}')
    d['side'] = side
    for n, v in d.items():
        need(getattr(x, n) is v, f'{n} is not as configured')
    for n in [f.name for f in dataclasses.fields(x)] + ['require_peer_authentication', 'other_side', 'certificate_types',
                                                          'peer_certificate_types', 'other']:
        for what in ('set', 'delete'):
            if what == 'delete' and n not in d:
                continue
            old = getattr(x, n, None)
            try:
                setattr(x, n, 1) if what == 'set' else delattr(x, n)
            except (AttributeError, TypeError):
                need(getattr(x, n, None) is old or getattr(x, n, None) == old, f'{n} has changed')
                continue
            raise Fail(f'{n} of a configuration can be {what}')


FIELDS = [f.name for f in dataclasses.fields(conf.TLSNegotiatedConfiguration)]


def histories(o):
    r = o.rng
    while True:
        yield dict(before=[r.choice(FIELDS) for _ in range(r.randrange(14))], deleted=[r.choice(FIELDS)] * r.randrange(2),
                   after=[[r.choice(['set', 'delete', 'freeze']), r.choice(FIELDS + ['_frozen', 'other'])] for _ in range(r.randrange(1, 30))])


@case(histories)
def frozen(before, deleted, after):
    """negotiated parameters, set, then frozen"""
    x = conf.TLSNegotiatedConfiguration()
    for i, n in enumerate(before):
        setattr(x, n, i)
    for n in deleted:
        delattr(x, n)
    x.freeze()
    marker = object()
    old = {n: getattr(x, n, marker) for n in FIELDS}
    for what, n in after:
        try:
            if what == 'freeze':
                x.freeze()
                continue
            setattr(x, n, False) if what == 'set' else delattr(x, n)
        except (AttributeError, TypeError):
            need(all(getattr(x, m, marker) is old[m] for m in FIELDS), f'a refused {what} of {n} changes the parameters')
            continue
        raise Fail(f'{n} can be {what} once frozen')


def once(o):
    yield {}


@case(once)
def defaults():
    a, b = conf.TLSConfiguration('client'), conf.TLSConfiguration('client')
    for n in ('cipher_suites', 'key_exchanges', 'signature_algorithms', 'trusted_public_keys', 'alpn', 'server_hostnames'):
        need(getattr(a, n) is not getattr(b, n), f'two configurations share their default {n}')
    need(a.max_fragment_length == 16384, 'the default fragment length is another')
