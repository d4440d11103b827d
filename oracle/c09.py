"""C09: the transcript of live handshakes against the hash of the messages the peer saw, and messages out of order."""
from oracle.run import case, Fail
from oracle import tls, live, pki


def need(x, what):
    if not x:
        raise Fail(what)


def same(n, p, what):
    need(n._transcript.digest() == p.th(), f'{what}: the digest is not that of the messages so far')


def runs(o):
    while True:
        for suite in tls.SUITES:
            for side in ('client', 'server'):
                for hrr in (0, 1):
                    yield dict(side=side, suite=suite, hrr=hrr, request=o.rng.randrange(2), frag=o.rng.choice([16384, 16384, 1, 7, 100]),
                               every=o.rng.randrange(2))


@case(runs)
def handshake(side, suite, hrr, request, frag, every):
    """the digest after each message"""
    suites = live.SUITES if every else [suite]
    if side == 'server':
        n = live.server(cipher_suites=live.suites([suite, *[s for s in suites if s != suite]]))
        p = tls.Client(suites=suites, groups=[29, 23], shares=[] if hrr else [29])
        n.initiate_connection()
        if hrr:
            need(tls.receive(n, p.hello()) is None, 'hello refused')
            p.feed(n.data_to_send())
            same(n, p, 'after a retry')
            p.shares[29] = tls.Share(29)
        need(tls.receive(n, p.hello()) is None, 'hello refused')
        p.feed(n.data_to_send())
        need(p.done and p.fin_ok, 'the finished value of the server is not over the messages so far')
        same(n, p, 'after the flight of the server')
        need(tls.receive(n, p.finished()) is None, 'finished refused')
        same(n, p, 'after the handshake')
        p.application()
    else:
        n = live.client(cipher_suites=live.suites(suites))
        c, k = pki.leaf()
        p = tls.Server(suite=suite, key=k)
        n.initiate_connection()
        p.feed(n.data_to_send())
        if hrr:
            need(tls.receive(n, p.retry(group=23)) is None, 'retry refused')
            p.feed(n.data_to_send())
            same(n, p, 'after a retry')
        steps = [('hello', p.hello), ('encrypted extensions', p.encrypted)]
        steps += [('request', p.request)] if request else []
        steps += [('certificate', lambda: p.certificate([(pki.der(c), []), (pki.der(pki.ca()[0]), [])], frag=frag)),
                  ('certificate verify', lambda: p.certificate_verify(frag=frag))]
        for what, step in steps:
            e = tls.receive(n, step())
            need(e is None, f'{what} refused: {e!r}')
            p.feed(n.data_to_send())
            same(n, p, f'after {what}')
        e = tls.receive(n, p.finished())
        if request:
            return  # answering a request is not implemented
        need(e is None, f'finished refused: {e!r}')
        p.feed(n.data_to_send())
        need(p.fin_ok, 'the finished value of the client is not over the messages so far')
        same(n, p, 'after the handshake')
    before = n._transcript.digest()
    n.send_data(b'data')
    tls.receive(n, p.send(23, b'data'))
    tls.receive(n, p.send(22, tls.hs(tls.FIN, bytes(32))))
    need(n._transcript.digest() == before, 'a message after the handshake alters the digest')


def message(p, t, size):
    if t == tls.CH:
        return tls.hs(tls.CH, tls.Client(shares=[29]).hello()[9:])
    body = {tls.SH: b'\3\3' + bytes(32) + b'\0\x13\3\0' + tls.vec(2, tls.ext(43, b'\3\4') + tls.ext(51, b'\0\x1d' + tls.vec(2, bytes(32)))),
            tls.EE: b'\0\0', tls.CR: b'\0' + tls.vec(2, tls.ext(13, b'\0\2\x08\7')), tls.CT: b'\0\0\0\0',
            tls.CV: b'\x08\7\0\0', tls.FIN: bytes(size)}[t]
    return tls.hs(t, body)


EXPECTED = {'ClientWaitServerHello': [tls.SH], 'ClientWaitServerHello2': [tls.SH], 'ClientWaitEncryptedExtensions': [tls.EE],
            'ClientWaitCertCr': [tls.CR, tls.CT], 'ClientWaitCertificate': [tls.CT], 'ClientWaitCertificateVerify': [tls.CV],
            'ClientWaitFinished': [tls.FIN], 'ServerWaitClientHello': [tls.CH], 'ServerWaitClientHello2': [tls.CH],
            'ServerWaitFinished': [tls.FIN]}


def strays(o):
    while True:
        for point, ok in EXPECTED.items():
            for t in (tls.CH, tls.SH, tls.EE, tls.CR, tls.CT, tls.CV, tls.FIN):
                if t in ok or t == tls.CT and point in ('ClientWaitServerHello',):
                    continue
                yield dict(point=point, t=t, suite=o.rng.choice(live.SUITES))


@case(strays)
def stray(point, t, suite):
    """a message out of order"""
    if t == tls.CT and point.startswith('Server') or t == tls.CT and point in (
            'ClientWaitServerHello2', 'ClientWaitEncryptedExtensions'):
        return  # cannot be decoded before the certificate types are negotiated
    n, p = live.at(point, suite=suite)
    own = [h.digest() for h in n._transcript._hashes]
    size = 32 if tls.SUITES[suite][0] == 'sha256' else 48
    e = tls.receive(n, p.send(22, message(p, t, size)))
    p.feed(n.data_to_send())
    need(e is not None, f'{point}: a message of type {t} is accepted')
    need(type(e).__name__ == 'UnexpectedMessage' and p.alerts()[-1:] == [(2, 10)],
         f'{point}: a message of type {t} is not answered with an unexpected message alert: {e!r} {p.alerts()}')
    if not (point == 'ServerWaitFinished' and t in (tls.CT, tls.CV)):
        need([h.digest() for h in n._transcript._hashes] == own, f'{point}: a message of type {t} out of order altered the digest')
