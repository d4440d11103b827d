"""C16: inconsistent configurations are refused and accepted ones are immutable."""
import dataclasses
from contracts.states import *
from contracts import states as S
from pyvc.core import ctx

TASKS = []


def some(what, kind=None):
    return choose([None, Opaque(kind or what, what)])


def any_list(name, cls):
    """None, no list of any length: what is configured"""
    return elist(name, cls)


def fields(side):
    from siotls import iana
    f = z3.Function('a host name', z3.IntSort(), z3.IntSort())
    d = dict(
        cipher_suites=elist('suites', iana.CipherSuites), key_exchanges=elist('groups', iana.NamedGroup),
        signature_algorithms=elist('algorithms', iana.SignatureScheme),
        trust_store=some('trust store'), revocation_list=some('revocation list'), max_chain_depth=sint('depth', 0),
        trusted_public_keys=slist('trusted keys', None, lambda k: models.pubkey('trusted', (nz(k),))),
        private_key=some('private key'), public_key=choose([None, models.pubkey('public key')]),
        max_fragment_length=senum(iana.MaxFragmentLengthOctets, 'fragment length'),
        can_echo_heartbeat=sbool('echo'), alpn=intlist('protocols', 0, 65535),
        server_hostnames=slist('host names', None, lambda k: Opaque('name', 'host name', (nz(k),))), log_keys=sbool('log keys'))
    kind = choose(['none', 'list'])
    d['certificate_chain'] = None if kind == 'none' else slist('chain', None, lambda k: Opaque('cert', 'of chain', (nz(k),)))
    return d


def given(x):
    """whether a list has an element"""
    return z3.BoolVal(False) if x is None else T(x.n) >= 1


def present(x):
    return z3.BoolVal(x is not None)


def consistent(side, d):
    need = [given(d['cipher_suites']), given(d['key_exchanges']), given(d['signature_algorithms'])]
    if side == 'server':
        need += [present(d['private_key']), Or(given(d['certificate_chain']), present(d['public_key'])),
                 T(d['max_fragment_length']) == 16384]
    else:
        need += [Not(given(d['server_hostnames']))]
    return And(*need)


def alike(a, b):
    a, b = desym(a), desym(b)
    if isinstance(a, (Opaque, SList)) or a is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str) or a is Ellipsis or b is Ellipsis:
        return a is b or isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
        return isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)) and ctx().must(truth(a) == truth(b))
    return ctx().must(T(a) == T(b))


def types(x509, raw):
    """what is listed when"""
    return [([0, 2], And(x509, raw)), ([0], And(x509, Not(raw))), ([2], And(Not(x509), raw)), ([], And(Not(x509), Not(raw)))]


def listed(name, got, x509, raw):
    got = [int(t) for t in desym(got)] if not isinstance(desym(got), SList) else None
    prove(f'{name} is a list of types', got is not None)
    for want, when in types(x509, raw):
        prove(f'{name} list X.509 first, then raw keys, as far as configured', Implies(when, z3.BoolVal(got == want)), f'{got}')


def make(side):
    def f():
        from siotls.configuration import TLSConfiguration
        d = fields(side)
        c, e = attempt(TLSConfiguration, side, **d)
        ok = consistent(side, d)
        if e is not None:
            prove('a configuration is refused with a value error', isinstance(e, ValueError), exc_name(e))
            prove('only an inconsistent configuration is refused', Not(ok))
            cover('refused')
            return
        cover('accepted')
        prove('only a consistent configuration is accepted', ok)
        for k, v in d.items():
            prove('an accepted configuration is the one given', alike(getattr(c, k), v), k)
        prove('its side is the one given', c.side == side)
        prove('the peer is on the other side', c.other_side == ('client' if side == 'server' else 'server'))
        auth, e = attempt(lambda: c.require_peer_authentication)
        prove('whether to authenticate the peer is told', e is None, exc_name(e))
        if e is None:
            prove('the peer is authenticated exactly when a trust store or trusted keys are given',
                  truth(auth) == Or(present(d['trust_store']), given(d['trusted_public_keys'])))
        listed('our certificate types', c.certificate_types, given(d['certificate_chain']), present(d['public_key']))
        listed('the certificate types of the peer', c.peer_certificate_types, present(d['trust_store']),
               given(d['trusted_public_keys']))
        immutable(c, [*d, 'side'])
    return f


def truth(x):
    return z3.BoolVal(x) if isinstance(x, bool) else cond(x)


def immutable(c, names):
    values = {n: getattr(c, n) for n in names}
    what = choose(['set', 'delete'])
    extra = ['not an attribute'] if what == 'set' else []
    # what is computed from the fields can no more be changed
    for n in [*names, 'require_peer_authentication', 'other_side', *extra]:
        _, e = attempt(setattr, c, n, None) if what == 'set' else attempt(delattr, c, n)
        prove(f'no attribute of a configuration can be {what}', isinstance(e, (AttributeError, TypeError)), f'{n}: {exc_name(e)}')
    for n, v in values.items():
        prove('the configuration is as it was', alike(getattr(c, n, Ellipsis), v), n)


def defaults(side):
    def f():
        from siotls.configuration import TLSConfiguration
        over = {} if side == 'client' else dict(private_key=Opaque('key', 'key'), public_key=models.pubkey('public'))
        a, e = attempt(TLSConfiguration, side, **over)
        prove('the default configuration is accepted', e is None, exc_name(e))
        if e is not None:
            return
        b = TLSConfiguration(side, **over)
        for n in ('cipher_suites', 'key_exchanges', 'signature_algorithms', 'trusted_public_keys', 'alpn', 'server_hostnames'):
            prove('two configurations do not share their default lists', getattr(a, n) is not getattr(b, n), n)
        prove('a configuration by default authenticates nobody', not a.require_peer_authentication)
        cover('default')
    return f


def negotiated_():
    """any history of changes, then frozen, then any attempt to change it"""
    from siotls.configuration import TLSNegotiatedConfiguration
    c = TLSNegotiatedConfiguration()
    names = [f.name for f in dataclasses.fields(TLSNegotiatedConfiguration)]
    prove('there are negotiated parameters', len(names) >= 12)
    when = choose(['untouched', 'set', 'set again'])
    for i in range({'untouched': 0, 'set': 1, 'set again': 2}[when]):
        for n in names:
            _, e = attempt(setattr, c, n, Opaque('value', f'{n} {i}'))
            prove('negotiated parameters can be set before', e is None, f'{n}: {exc_name(e)}')
    if choose([0, 1]):
        _, e = attempt(delattr, c, names[0])
        prove('negotiated parameters can be deleted before', e is None, exc_name(e))
        setattr(c, names[0], None)
    values = {n: getattr(c, n) for n in names}
    _, e = attempt(c.freeze)
    prove('they can be frozen', e is None, exc_name(e))
    # in any order, with any attribute first
    first = choose(names)
    what = choose(['set', 'delete'])
    order = [first] + [n for n in names if n != first]
    for n in order + ['_frozen', 'not an attribute']:
        v = choose([None, Opaque('value', 'another')]) if n is first else (False if n == '_frozen' else Opaque('value', f'other {n}'))
        _, e = attempt(setattr, c, n, v) if what == 'set' else attempt(delattr, c, n)
        prove(f'nothing can be {what} once frozen', isinstance(e, (TypeError, AttributeError)), f'{n}: {exc_name(e)}')
        prove('the values are as they were', all(getattr(c, m, 0) is values[m] for m in names), n)
    attempt(c.freeze)
    _, e = attempt(setattr, c, first, 1)
    prove('it stays frozen', isinstance(e, (TypeError, AttributeError)), exc_name(e))
    cover('frozen')


for _s in ('client', 'server'):
    TASKS.append(Task(f'any configuration of a {_s}', make(_s), cost=5))
    TASKS.append(Task(f'the default configuration of a {_s}', defaults(_s)))
TASKS.append(Task('negotiated parameters', negotiated_, cost=3))
