"""C07: nonces and limits, on the real ciphers."""
from oracle.run import case, Fail
from oracle import tls, live
from oracle.c08 import suite, size, need, ciphers

LIMITS = {0x1301: 2 ** 24.5, 0x1302: 2 ** 24.5, 0x1303: 2 ** 64, 0x1304: 2 ** 23, 0x1305: 2 ** 23}


class Spy:
    """records the nonces given to the AEAD"""
    def __init__(self, a): self.a, self.nonces = a, []

    def encrypt(self, nonce, data, ad):
        self.nonces.append(bytes(nonce))
        return self.a.encrypt(nonce, data, ad)

    def decrypt(self, nonce, data, ad):
        self.nonces.append(bytes(nonce))
        return self.a.decrypt(nonce, data, ad)


def counts(o):
    while True:
        for n in tls.SUITES:
            for side in ('client', 'server'):
                yield dict(n=n, side=side, sent=o.rng.choice([1, 3, 10, 40, 300]), received=o.rng.choice([0, 1, 3, 10, 300]),
                           peeks=o.rng.randint(0, 5), first=o.rng.randint(0, 3), th=o.bytes(size(n)).hex())


@case(counts)
def count(n, side, sent, received, peeks, first, th):
    c = suite(n, side)
    th = bytes.fromhex(th)
    sch = tls.Schedule(n)
    c.skip_early_secrets()
    sch.handshake(b'shared', th)
    c.derive_handshake_secrets(b'shared', th)
    sch.application(th)
    for stage, cs, ss, k in (('handshake', sch.c_hs, sch.s_hs, first), ('application', sch.c_ap, sch.s_ap, sent)):
        if stage == 'application':
            c.derive_master_secrets(th, th)
        w, r = (cs, ss) if side == 'client' else (ss, cs)
        pw, pr = tls.Protect(n, *sch.key_iv(w)), tls.Protect(n, *sch.key_iv(r))
        for i in range(max(k, received)):
            for _ in range(peeks if i % 3 == 0 else 0):
                c.should_rekey
            if i < k:
                try:
                    pw.a.decrypt(pw.nonce(), c.encrypt(b'x%d' % i, b'h'), b'h')
                except Exception:  # noqa: BLE001
                    raise Fail(f'{stage}: record {i} sent is not protected with the nonce of number {i}') from None
            if i < received:
                try:
                    c.decrypt(pr.a.encrypt(pr.nonce(), b'y', b'h'), b'h')
                except Exception as e:  # noqa: BLE001
                    raise Fail(f'{stage}: record {i} received is not opened with the nonce of number {i}: {e!r}') from None


def limits(o):
    while True:
        for n in tls.SUITES:
            for side in ('client', 'server'):
                for stage in ('early', 'handshake', 'application'):
                    yield dict(n=n, side=side, stage=stage, limit=o.rng.choice([1, 2, 5, 20]), asks=o.rng.choice([0, 0, 1, 2]))


@case(limits)
def limit(n, side, stage, limit, asks=0):
    cls = ciphers.TLSCipherSuite[live.iana.CipherSuites(n)]
    need(cls.usage_limit <= LIMITS[n], f'the limit {cls.usage_limit} is above {LIMITS[n]}')
    c = type(cls.__name__, (cls,), {'usage_limit': limit})(side, bytes(32), log_keys=False)  # a shorter one, to reach it
    th = bytes(size(n))
    sch = tls.Schedule(n)
    if stage == 'early':
        c.derive_early_secrets(b'psk', 'external', th)
    else:
        c.skip_early_secrets()
        c.derive_handshake_secrets(b's', th)
        sch.handshake(b's', th)
        if stage == 'application':
            sch.application(th)
            c.derive_master_secrets(th, th)
    for attr, f in (('_write_cipher', c.encrypt), ('_read_cipher', c.decrypt)):
        a = getattr(c, attr)
        if a is None:
            continue
        spy = Spy(a)
        setattr(c, attr, spy)
        for i in range(limit + 3):
            for _ in range(asks):
                try:
                    c.should_rekey
                except (Exception, StopIteration):  # noqa: BLE001
                    pass
            try:
                f(b'data', b'h')
            except Exception:  # noqa: BLE001
                if attr == '_write_cipher' and i < limit:
                    raise Fail(f'record {i} of {limit} is refused') from None
        need(len(spy.nonces) == limit, f'{len(spy.nonces)} records under a key limited to {limit}')
        need(len(set(spy.nonces)) == len(spy.nonces), 'a nonce is used twice')


def many(o):
    while True:
        for n in tls.SUITES:
            for side in ('client', 'server'):
                yield dict(n=n, side=side, count=70000)


@case(many)
def long_run(n, side, count):
    """the nonces of many records, under a stand-in for the AEAD"""
    c = suite(n, side)
    th = bytes(size(n))
    sch = tls.Schedule(n)
    c.skip_early_secrets()
    sch.handshake(b's', th)
    c.derive_handshake_secrets(b's', th)
    w, r = (sch.c_hs, sch.s_hs) if side == 'client' else (sch.s_hs, sch.c_hs)
    for attr, f, secret in (('_write_cipher', c.encrypt, w), ('_read_cipher', c.decrypt, r)):
        iv = int.from_bytes(sch.key_iv(secret)[1], 'big')
        size_ = len(sch.key_iv(secret)[1])
        got = []

        class Stub:
            def encrypt(self, nonce, data, ad):
                got.append(nonce)
                return data

            decrypt = encrypt
        setattr(c, attr, Stub())
        for i in range(count):
            f(b'', b'')
        for i, x in enumerate(got):
            if x != (iv ^ i).to_bytes(size_, 'big'):
                raise Fail(f'record {i} does not have the nonce of its number')


def lives(o):
    while True:
        for n in tls.SUITES:
            for side in ('client', 'server'):
                yield dict(n=n, side=side, sends=[o.rng.choice([0, 1, 100, 16000, 40000]) for _ in range(o.rng.randint(1, 6))],
                           gets=[o.rng.choice([0, 1, 100, 16000, 40000]) for _ in range(o.rng.randint(1, 6))])


@case(lives)
def live_counts(n, side, sends, gets):
    c, p = live.connected(side, suite=n)
    for i in range(max(len(sends), len(gets))):
        if i < len(sends):
            c.send_data(bytes(sends[i]))
            p.feed(c.data_to_send())
            need(p.bad is None, f'send {i}: {p.bad}')
        if i < len(gets):
            e = tls.receive(c, p.send(23, bytes(gets[i]), frag=16000))
            need(e is None, f'record {i} of the peer: {e!r}')
