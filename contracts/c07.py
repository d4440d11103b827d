"""C07: the n-th record under a key uses the n-th nonce, up to the limit of the suite."""
from pyvc.harness import *
from pyvc.harness import Task
from pyvc import models
from contracts.crypto import *

TASKS = []
# the limits of the suites: RFC 8446 5.5 (AES-GCM), the sequence number (ChaCha20), RFC 9147 4.5.3 (CCM)
LIMITS = {0x1301: 2 ** 24.5, 0x1302: 2 ** 24.5, 0x1303: 2 ** 64, 0x1304: 2 ** 23, 0x1305: 2 ** 23}


def task(name, **o):
    def deco(f):
        TASKS.append(Task(name, f, **o))
        return f
    return deco


def ask(c):
    attempt(lambda: c.should_rekey)


class Hooks:
    __vc_state__ = True

    def __init__(self, tag, alg, iv, key, offset, calls, peek):
        self.tag, self.alg, self.iv, self.key, self.offset, self.calls, self.peek = tag, alg, iv, key, offset, calls, peek
        self.data, self.header = bvar(f'data {tag}'), bvar(f'header {tag}', 5)

    def before(self, c, k, step):
        setattr(recorder(), self.calls, [])
        asked = sym.atom(f'asks {self.tag}', k)
        asked2 = sym.atom(f'asks again {self.tag}', k)
        if self.peek and bool(asked):
            ask(c)
            if bool(asked2):
                ask(c)

    def run(self, f):
        x, e = attempt(f, self.data, self.header)
        prove(f'{self.tag}: below the limit every record goes through', e is None, exc_name(e))

    def after(self, c, k):
        calls = getattr(recorder(), self.calls)
        prove(f'{self.tag}: each record uses the AEAD once', len(calls) == 1)
        if len(calls) == 1:
            a, nonce, _, _ = calls[0]
            prove(f'{self.tag}: under the key installed', beq(a.key, self.key))
            prove(f'{self.tag}: with the nonce of its number', beq(nonce, nonce_of(self.iv, sym.mkint(zi(k) + zi(self.offset)))))


def installed(number, side, stage):
    """a suite with the keys of a stage just installed"""
    import spec.records
    ghost()['virtual_iterators'] = True
    ghost()['roots'] = {'recorder': recorder()}
    c = new_suite(number, side)
    h = SUITES[number][0]
    t = bvar('transcript hash', SIZES[h][0])
    sch = Schedule(number, bvar('shared key'), t, t, t, bvar('psk') if stage == 'early' else None, t)
    if stage == 'early':
        c.derive_early_secrets(bvar('psk'), 'external', t)
        s = sch.c_e
        return c, (sch.key_iv(s) if side == 'client' else None), (sch.key_iv(s) if side == 'server' else None)
    c.skip_early_secrets()
    c.derive_handshake_secrets(bvar('shared key'), t)
    cs, ss = sch.c_hs, sch.s_hs
    if stage == 'application':
        # some records under the handshake keys first
        for f, kiv in ((c.encrypt, 'w'), (c.decrypt, 'r')):
            if choose([0, 1]):
                attempt(f, bvar('before'), bvar('before header', 5))
        c.derive_master_secrets(t, t)
        cs, ss = sch.c_ap, sch.s_ap
    w, r = (cs, ss) if side == 'client' else (ss, cs)
    return c, sch.key_iv(w), sch.key_iv(r)


def counts(number, stage):
    def f():
        import spec.records as spec
        side = choose(['client', 'server'])
        c, w, r = installed(number, side, stage)
        limit = type(c).usage_limit
        prove('the limit of the suite is not above what its nonces allow', limit <= LIMITS[number], f'{limit}')
        alg = SUITES[number][1]
        n = sint('sent', 0)
        m = sint('received', 0)
        more = sint('sent later', 0)
        assume(And(T(n) + T(more) <= limit, T(m) <= limit))
        if w:
            spec.send(c, n, 0, Hooks('sending', alg, w[1], w[0], 0, 'seals', True))
        if r:
            # nobody asks whether a rekey is due, until the first question, after any number of records
            h = Accept('receiving', alg, r[1], r[0], 0, 'opens', False)
            h.number = SUITES[number][4]
            first = sint('received first', 0)
            assume(T(first) <= T(m))
            spec.receive(c, first, 0, h)
            if w and choose([0, 1]):
                ask(c)
                h = Accept('receiving on', alg, r[1], r[0], first, 'opens', True)
            else:
                h = Accept('receiving on', alg, r[1], r[0], first, 'opens', False)
            h.number = SUITES[number][4]
            spec.receive(c, sym.mkint(T(m) - T(first)), 1, h)
        if w:
            if branch(T(more) > 0):
                # whether or not a question left a number aside
                h = Hooks('sending one more', alg, w[1], w[0], n, 'seals', True)
                h.before(c, 0, 1)
                h.run(c.encrypt)
                h.after(c, 0)
                spec.send(c, sym.mkint(T(more) - 1), 1,
                          Hooks('sending on', alg, w[1], w[0], sym.mkint(T(n) + 1), 'seals', True))
            if T_eq(sym.mkint(T(n) + T(more)), limit):
                if choose([0, 1]):
                    ask(c)
                recorder().seals = []
                _, e = attempt(c.encrypt, bvar('too many'), bvar('header', 5))
                prove('at the limit nothing more is protected', len(recorder().seals) == 0 and e is not None)
                cover('sending limit')
        if r and T_eq(m, limit):
            recorder().opens = []
            _, e = attempt(c.decrypt, bvar('too many'), bvar('header', 5))
            prove('at the limit nothing more is accepted', len(recorder().opens) == 0 and e is not None)
            cover('receiving limit')
        cover(stage)
    return f


def T_eq(x, y):
    return branch(T(x) == y)


class Accept(Hooks):
    """the record given is the one sealed with the nonce of its number"""
    number = None

    def before(self, c, k, step):
        Hooks.before(self, c, k, step)
        a = models.VAead(self.alg, self.key, self.number)
        self.data = models.seal(a, nonce_of(self.iv, sym.mkint(zi(k) + zi(self.offset))), bvar('plain'), self.header)


for _n in SUITES:
    for _s in ('early', 'handshake', 'application'):
        TASKS.append(Task(f'counts of {_n:#06x}, {_s}', counts(_n, _s), cost=5 if _s == 'application' else 1))
