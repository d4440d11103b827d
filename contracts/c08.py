"""C08: the key schedule is the one of RFC 8446, on both sides."""
from pyvc.harness import *
from pyvc.harness import Task
from pyvc import models
from contracts.crypto import *

TASKS = []


def task(name, **o):
    def deco(f):
        TASKS.append(Task(name, f, **o))
        return f
    return deco


def th(name, number):
    return bvar(name, SIZES[SUITES[number][0]][0])


def schedule(number):
    def f():
        side = choose(['client', 'server'])
        c = new_suite(number, side)
        shared = bvar('shared key')
        t_sh, t_sf, t_cf = th('hash(server hello)', number), th('hash(server finished)', number), th('hash(client finished)', number)
        use_psk = choose([False, True])
        psk = bvar('psk') if use_psk else None
        t_ch = th('hash(client hello)', number)
        sch = Schedule(number, shared, t_sh, t_sf, t_cf, psk, t_ch)
        mine, theirs = (('c', 's') if side == 'client' else ('s', 'c'))
        prove('no key: nothing is protected', not c.must_encrypt and not c.must_decrypt)
        if use_psk:
            mode = choose(['external', 'resume'])
            got, e = attempt(c.derive_early_secrets, psk, mode, t_ch)
            prove('early: the secrets are derived', e is None, exc_name(e))
            if e is not None:
                return
            prove('early: the binder key', beq(got[0], sch.binder[mode]))
            prove('early: the exporter secret', beq(got[1], sch.e_exp))
            if side == 'client':
                prove('early: only sending is protected', c.must_encrypt and not c.must_decrypt)
                protects('early', c, sch, sch.c_e)
            else:
                prove('early: only receiving is protected', c.must_decrypt and not c.must_encrypt)
                accepts('early', c, sch, sch.c_e)
        else:
            c.skip_early_secrets()
        _, e = attempt(c.derive_handshake_secrets, shared, t_sh)
        prove('handshake: the secrets are derived', e is None, exc_name(e))
        if e is not None:
            return
        prove('handshake: every record is protected', And(c.must_encrypt, c.must_decrypt))
        protects('handshake write', c, sch, getattr(sch, mine + '_hs'))
        accepts('handshake read', c, sch, getattr(sch, theirs + '_hs'))
        t = bvar('transcript')
        got, e = attempt(c.sign_finish, t)
        prove('finished: the value sent', e is None and beq(got, sch.finished(side, t)), exc_name(e))
        v = bvar('verify data')
        want = sch.finished(other(side), t)
        _, e = attempt(c.verify_finish, t, v)
        if e is None:
            prove('finished: only the value of the other side is accepted', beq(v, want))
            cover('finished accepted')
        else:
            prove('finished: refused with a value error', isinstance(e, ValueError), exc_name(e))
            prove('finished: the value of the other side is accepted', Not(beq(v, want)))
            cover('finished refused')
            return
        got, e = attempt(c.derive_master_secrets, t_sf, t_cf)
        prove('application: the secrets are derived', e is None, exc_name(e))
        if e is not None:
            return
        prove('application: the exporter secret', beq(got[0], sch.exp))
        prove('application: the resumption secret', beq(got[1], sch.res))
        prove('application: every record is protected', And(c.must_encrypt, c.must_decrypt))
        protects('application write', c, sch, getattr(sch, mine + '_ap'))
        accepts('application read', c, sch, getattr(sch, theirs + '_ap'))
        cover('application')
    return f


for _n in SUITES:
    TASKS.append(Task(f'schedule of {_n:#06x}', schedule(_n), cost=5))


@task('two sides')
def t_sides():
    """what one side sends the other opens, at every stage; finished values are accepted"""
    number = choose(list(SUITES))
    c, s = new_suite(number, 'client'), new_suite(number, 'server')
    shared = bvar('shared key')
    t_sh, t_sf, t_cf = th('hash(server hello)', number), th('hash(server finished)', number), th('hash(client finished)', number)
    for x in (c, s):
        x.skip_early_secrets()
        x.derive_handshake_secrets(shared, t_sh)
    pair('handshake', c, s)
    t1, t2 = bvar('transcript 1'), bvar('transcript 2')
    for tag, a, b, t in (('server', s, c, t1), ('client', c, s, t2)):
        _, e = attempt(b.verify_finish, t, a.sign_finish(t))
        prove(f'the finished value of the {tag} is accepted', e is None, exc_name(e))
    r = [x.derive_master_secrets(t_sf, t_cf) for x in (c, s)]
    prove('same exporter and resumption secrets', And(beq(r[0][0], r[1][0]), beq(r[0][1], r[1][1])))
    pair('application', c, s)
    cover('two sides')


def pair(tag, c, s):
    for name, a, b in (('client to server', c, s), ('server to client', s, c)):
        for n in range(3):
            d, h = bvar(f'{tag} {name} {n}'), bvar(f'{tag} header {n}', 5)
            x, e = attempt(a.encrypt, d, h)
            prove(f'{tag}: {name} protects', e is None)
            y, e = attempt(b.decrypt, x, h)
            prove(f'{tag}: {name} opens', e is None and beq(y, d), exc_name(e))


@task('hkdf')
def t_hkdf():
    """RFC 5869 with any salt, input, info, for the lengths up to three blocks and the longest"""
    import hashlib
    from siotls.crypto import hkdf
    h = choose(['sha256', 'sha384'])
    dm = getattr(hashlib, h)
    n = SIZES[h][0]
    salt, ikm = bvar('salt'), bvar('ikm')
    got, e = attempt(hkdf.hkdf_extract, dm, salt, ikm)
    if branch(T(sym.mkint(nz(blen(salt)))) == 0):
        prove('extract: without salt', e is None and beq(got, mac(h, b'', ikm)))
    else:
        prove('extract', e is None and beq(got, mac(h, salt, ikm)))
    prk, info = bvar('prk'), bvar('info')
    L = choose([1, 12, 16, n - 1, n, n + 1, 2 * n, 2 * n + 5, 3 * n])
    got, e = attempt(hkdf.hkdf_expand, dm, prk, info, L)
    prove('expand', e is None and beq(got, expand(h, prk, info, L)), exc_name(e))
    label, context = bvar('label'), bvar('context')
    assume(And(nz(blen(label)) <= 249, nz(blen(context)) <= 255))
    got, e = attempt(hkdf.hkdf_expand_label, dm, prk, label, context, L)
    want = expand(h, prk, concat(u(2, L), ube(sym.mkint(nz(blen(label)) + 6), 1), b'tls13 ', label,
                                 ube(sym.mkint(nz(blen(context))), 1), context), L)
    prove('expand_label', e is None and beq(got, want), exc_name(e))
    cover('hkdf')


models.install_key_logger()
