"""C08: the key schedule against an independent one; both sides; finished values."""
import importlib
from oracle.run import case, Fail
from oracle import tls, live

ciphers = importlib.import_module('siotls.crypto.ciphers')
iana = live.iana


def need(x, what):
    if not x:
        raise Fail(what)


def suite(n, side, log=False):
    return ciphers.TLSCipherSuite[iana.CipherSuites(n)](side, bytes(32), log_keys=log)


def size(n): return 32 if tls.SUITES[n][0] == 'sha256' else 48


def check_keys(c, sch, w, r, what):
    p = tls.Protect(sch.suite, *sch.key_iv(w))
    x = c.encrypt(b'data of ' + what.encode(), b'head')
    try:
        got = p.a.decrypt(p.nonce(), x, b'head')
    except Exception:  # noqa: BLE001
        raise Fail(f'{what}: what is sent is not protected by the write key and iv of RFC 8446') from None
    need(got == b'data of ' + what.encode(), f'{what}: other plaintext')
    p = tls.Protect(sch.suite, *sch.key_iv(r))
    try:
        got = c.decrypt(p.a.encrypt(p.nonce(), b'peer', b'h'), b'h')
    except Exception as e:  # noqa: BLE001
        raise Fail(f'{what}: a record under the peer keys of RFC 8446 is refused: {e!r}') from None
    need(bytes(got) == b'peer', f'{what}: other plaintext received')


def schedules(o):
    while True:
        for n in tls.SUITES:
            for side in ('client', 'server'):
                z = size(n)
                yield dict(n=n, side=side, shared=o.bytes(o.rng.choice([1, 32, 48, 56, 66, 256, 1024])).hex(),
                           th=[o.bytes(z).hex() for _ in range(3)])


@case(schedules)
def schedule(n, side, shared, th):
    c = suite(n, side)
    sh, sf, cf = map(bytes.fromhex, th)
    sch = tls.Schedule(n)
    c.skip_early_secrets()
    sch.handshake(bytes.fromhex(shared), sh)
    c.derive_handshake_secrets(bytes.fromhex(shared), sh)
    w, r = (sch.c_hs, sch.s_hs) if side == 'client' else (sch.s_hs, sch.c_hs)
    check_keys(c, sch, w, r, 'handshake keys')
    need(c.sign_finish(sf) == sch.finished(w, sf), 'the finished value is not that of RFC 8446')
    good = sch.finished(r, sf)
    try:
        c.verify_finish(sf, good)
    except ValueError:
        raise Fail('the finished value of the peer is refused') from None
    bads = [good[:-1], good + b'\0', b'', bytes(len(good)), bytes([good[0] ^ 1]) + good[1:], good[:-1] + bytes([good[-1] ^ 0x80]),
            sch.finished(r, cf), sch.finished(w, sf), good[:len(good) // 2] + bytes(len(good) - len(good) // 2), good[:16],
            good[1:], bytes([good[0]])]
    for b in bads:
        if b == good:
            continue
        try:
            c.verify_finish(sf, b)
        except ValueError:
            continue
        raise Fail(f'a wrong finished value is accepted ({b.hex()} for {good.hex()})')
    ex, res = c.derive_master_secrets(sf, cf)
    sch.application(sf)
    w, r = (sch.c_ap, sch.s_ap) if side == 'client' else (sch.s_ap, sch.c_ap)
    check_keys(c, sch, w, r, 'application keys')
    need(ex == sch.exporter, 'exporter secret')
    need(res == tls.derive(sch.h, sch.master, b'res master', cf), 'resumption secret')


@case(schedules)
def early(n, side, shared, th):
    c = suite(n, side)
    psk, ch, _ = map(bytes.fromhex, th)
    for mode, label in (('external', b'ext binder'), ('resume', b'res binder')):
        c = suite(n, side)
        b, ex = c.derive_early_secrets(psk, mode, ch)
        h = tls.SUITES[n][0]
        import hashlib
        e = tls.extract(h, bytes(size(n)), psk)
        need(b == tls.derive(h, e, label, hashlib.new(h).digest()), 'binder key')
        need(ex == tls.derive(h, e, b'e exp master', ch), 'early exporter secret')
        sch = tls.Schedule(n)
        p = tls.Protect(n, *sch.key_iv(tls.derive(h, e, b'c e traffic', ch)))
        if side == 'client':
            try:
                got = p.a.decrypt(p.nonce(), c.encrypt(b'early', b'h'), b'h')
            except Exception:  # noqa: BLE001
                raise Fail('early keys') from None
            need(got == b'early', 'early plaintext')
        else:
            try:
                c.decrypt(p.a.encrypt(p.nonce(), b'x', b'h'), b'h')
            except Exception:  # noqa: BLE001
                raise Fail('early keys') from None
        # and what follows uses the psk
        c.derive_handshake_secrets(bytes.fromhex(shared), ch)
        hs = tls.extract(h, tls.derive(h, e, b'derived', hashlib.new(h).digest()), bytes.fromhex(shared))
        s = tls.derive(h, hs, b'c hs traffic' if side == 'client' else b's hs traffic', ch)
        need(c.sign_finish(ch) == sch.finished(s, ch), 'handshake secrets after a psk')


def lives(o):
    while True:
        for n in tls.SUITES:
            for side in ('client', 'server'):
                for hrr in (False, True):
                    yield dict(n=n, side=side, hrr=hrr)


@case(lives)
def handshake(n, side, hrr):
    """a whole handshake with an independent peer, data both ways"""
    try:
        c, p = live.connected(side, suite=n, hrr=hrr)
    except RuntimeError as e:
        raise Fail(f'the handshake with an independent peer fails: {e}') from None
    need(tls.state(c) == 'Connected', f'state {tls.state(c)}')
    need(p.bad is None and p.fin_ok, f'the peer refuses what is sent: {p.bad}')
    c.send_data(b'one')
    c.send_data(b'two')
    p.feed(c.data_to_send())
    need([x for x in p.got if x[0] == 23] == [(23, b'one'), (23, b'two')] and p.bad is None, 'the peer cannot read the data sent')
    e = tls.receive(c, p.send(23, b'abc') + p.send(23, b'def', pad=7))
    need(e is None and c.data_to_read() == b'abcdef', f'data of the peer: {e!r}')


def hkdfs(o):
    while True:
        h = o.rng.choice(['sha256', 'sha384'])
        z = 32 if h == 'sha256' else 48
        yield dict(h=h, secret=o.bytes(z).hex(), label=o.bytes(o.rng.randint(1, 20)).hex(),
                   context=o.bytes(o.rng.choice([0, z, 1, 255])).hex(), n=o.rng.choice([1, 12, 16, 32, 48, 64, 100, 255 * z]))


@case(hkdfs)
def hkdf(h, secret, label, context, n):
    import hashlib
    k = importlib.import_module('siotls.crypto.hkdf')
    d = getattr(hashlib, h)
    s, l, x = map(bytes.fromhex, (secret, label, context))
    need(k.hkdf_expand_label(d, s, l, x, n) == tls.expand_label(h, s, l, x, n), 'HKDF-Expand-Label')
    need(k.hkdf_extract(d, l, s) == tls.extract(h, l, s), 'HKDF-Extract')
