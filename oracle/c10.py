"""C10: live handshakes of the real client with a server that cheats in one way, or does not."""
from oracle.run import case, Fail
from oracle import tls, live, pki

conf, conn, iana = tls.siotls()
KINDS = ['p256', 'p384', 'p521', 'ed25519', 'ed448', 'rsa']
ALGS = {'p256': [0x0403], 'p384': [0x0503], 'p521': [0x0603], 'ed25519': [0x0807], 'ed448': [0x0808],
        'rsa': [0x0804, 0x0805, 0x0806]}
CLIENT_ALGS = [0x0807, 0x0808, 0x0403, 0x0503, 0x0603, 0x0809, 0x080a, 0x080b, 0x0804, 0x0805, 0x0806]


def need(x, what):
    if not x:
        raise Fail(what)


def flip(b, i=0):
    i %= len(b)
    return b[:i] + bytes([b[i] ^ 1]) + b[i + 1:]


# how the server cheats -> trusts under which it has to be refused
ALWAYS = ['sig flip', 'sig other key', 'sig client context', 'sig other transcript', 'sig empty', 'sig before certificate',
          'sig only context', 'alg not offered', 'alg other', 'finished flip', 'finished short', 'finished empty', 'finished by client',
          'finished other transcript', 'skip certificate', 'skip verify', 'skip both', 'skip finished', 'swap', 'no entries',
          'finished twice', 'type not offered', 'finished first', 'sig by issuer']
STORE = ['other host', 'other ca', 'expired', 'not yet', 'self signed', 'client usage', 'revoked', 'issuer revoked', 'staple revoked',
         'staple expired', 'staple of another', 'staple by another', 'fetched revoked', 'raw for x509', 'leaf of another chain',
         'staple and crl']
KEYS = ['raw untrusted', 'raw entry order']


def runs(o):
    while True:
        for trust in ('', 'store', 'keys', 'both'):
            for bad in ['none', 'none', *ALWAYS, *(STORE if trust in ('store', 'both') else []), *(KEYS if 'keys' in trust or trust == 'both' else [])]:
                yield dict(trust=trust, bad=bad, kind=o.rng.choice(KINDS), suite=o.rng.choice(live.SUITES),
                           hrr=o.rng.randrange(2), request=0, host=o.rng.choice(['example.com', '192.0.2.7', '2001:db8::1']),
                           alg=o.rng.randrange(3), bit=o.rng.randrange(200), staple=o.rng.randrange(2),
                           raw=o.rng.randrange(2), crl=o.rng.randrange(2))


class Service:
    def __init__(self, response):
        self.response = response

    def request(self, url, req):
        return self.response

    def cache(self, *a):
        pass

    def uncache(self, *a):
        pass


@case(runs)
def authenticated(trust, bad, kind, suite, hrr, request, host, alg, bit, staple, raw, crl):
    """connected only if the server did not cheat"""
    raw = (trust in ('keys',) or trust == 'both' and (raw or bad in KEYS)) and bad not in STORE
    cacert, cakey = pki.ca()
    other = ('other ca', 'p256', 7)
    cert, key = pki.leaf(host, kind)
    served = key
    if bad == 'other host':
        cert, key = pki.leaf({'example.com': 'example.org', '192.0.2.7': '192.0.2.8'}.get(host, '2001:db8::2'), kind)
    elif bad == 'other ca':
        cert, key = pki.leaf(host, kind, other)
    elif bad == 'expired':
        cert, key = pki.leaf(host, kind, days=(-5, -1))
    elif bad == 'not yet':
        cert, key = pki.leaf(host, kind, days=(1, 5))
    elif bad == 'client usage':
        cert, key = pki.leaf(host, kind, eku=pki.ExtendedKeyUsageOID.CLIENT_AUTH)
    served = key
    entries = [(pki.der(cert), []), (pki.der(cacert), [])]
    if bad == 'self signed':
        c2, k2 = pki.ca('example.com', 'p256', 9)
        entries, served = [(pki.der(c2), []), (pki.der(cacert), [])], k2
    revoked = [12345]
    if bad in ('revoked', 'staple and crl'):
        revoked.append(cert.serial_number)
        crl = 1
    elif bad == 'issuer revoked':
        revoked.append(cacert.serial_number)
        crl = 1
    st = lambda **k: [(5, b'\1' + tls.vec(3, pki.status(cert, cacert, k.pop('key', cakey), **k)))]  # noqa: E731
    if not raw and trust in ('store', 'both'):
        if bad == 'staple revoked':
            entries[0] = entries[0][0], st(good=False)
        elif bad == 'staple expired':
            entries[0] = entries[0][0], st(this=-5, next_=-1)
        elif bad == 'staple of another':
            entries[0] = entries[0][0], [(5, b'\1' + tls.vec(3, pki.status(pki.leaf('example.net')[0], cacert, cakey)))]
        elif bad == 'staple by another':
            entries[0] = entries[0][0], [(5, b'\1' + tls.vec(3, pki.status(cert, pki.ca(*other)[0], pki.ca(*other)[1])))]
        elif (staple or bad == 'staple and crl') and bad in ('none', 'staple and crl', *ALWAYS):
            entries[0] = entries[0][0], st()
    service = None
    if bad == 'fetched revoked':
        cert, key = leaf_with_url(host, kind)
        served, entries = key, [(pki.der(cert), []), entries[1]]
        service = Service(pki.status(cert, cacert, cakey, good=False))
    if bad == 'leaf of another chain':
        entries.insert(0, (pki.der(pki.leaf(host, kind, other)[0]), []))
        served = pki.leaf(host, kind, other)[1]
    es = []
    if raw:
        entries, es = [(pki.spki(served.public_key()), [])], [(20, b'\2')]
    if bad == 'raw for x509':
        entries, es = [(pki.spki(served.public_key()), [])], [(20, b'\2')] if trust == 'both' else []
    if bad == 'raw untrusted':
        served = pki.key(kind, 77)
        entries = [(pki.spki(served.public_key()), [])]
    if bad == 'raw entry order':
        served = pki.key(kind, 77)
        entries = [(pki.spki(served.public_key()), []), (pki.spki(key.public_key()), [])]
    if bad == 'type not offered':
        if trust in ('both',):
            return
        es = [(20, b'\0' if trust == 'keys' else b'\2')]
    if bad == 'no entries':
        entries = []
    cfg = dict(signature_algorithms=live.algs(CLIENT_ALGS))
    if trust in ('store', 'both'):
        cfg['trust_store'] = live.store()
        if crl:
            cfg['revocation_list'] = pki.crl(revoked)
    if trust in ('keys', 'both'):
        cfg['trusted_public_keys'] = [pki.key('ed25519', 55).public_key(), key.public_key()]
        if bad == 'raw for x509':
            cfg['trusted_public_keys'] = [pki.key('ed25519', 55).public_key()]
    algs = ALGS[kind if bad != 'self signed' else 'p256']
    a = algs[alg % len(algs)]
    if bad == 'alg not offered':
        cfg['signature_algorithms'] = live.algs([x for x in CLIENT_ALGS if x != a])
        alg_sent = a
    n = live.client(host, service, auth=False, **cfg)
    p = tls.Server(suite=suite, key=served)
    n.initiate_connection()
    p.feed(n.data_to_send())
    steps = []
    if hrr:
        need(tls.receive(n, p.retry(group=23)) is None, 'a retry is refused')
        p.feed(n.data_to_send())
    steps.append(p.hello)
    steps.append(lambda: p.encrypted(es))
    ct = lambda: p.certificate(entries)  # noqa: E731

    def cv():
        th = p.th()
        data, k, alg_sent, sig = tls.cv_input(th), served, a, None
        if bad == 'sig other key':
            k = pki.key(kind, 88)
        elif bad == 'sig by issuer':
            k, alg_sent = cakey, 0x0403
            return p.certificate_verify(alg=0x0403, sig=tls.sign(cakey, 0x0403, data))
        elif bad == 'sig client context':
            data = data.replace(b'server', b'client')
        elif bad == 'sig other transcript':
            data = tls.cv_input(flip(th, bit))
        elif bad == 'sig before certificate':
            data = tls.cv_input(p.th(len(p.tr) - 1))
        elif bad == 'sig only context':
            data = data[:-len(th)]
        elif bad == 'sig empty':
            sig = b''
        elif bad == 'alg other':
            # an RSA key does not say whether it is for PSS only: the same signature under either name is not judged
            others = [x for x in CLIENT_ALGS if x not in algs and not (kind == 'rsa' and bad_rsa(x))]
            alg_sent = others[bit % len(others)]
        if sig is None:
            sig = tls.sign(k, a, data)
        if bad == 'sig flip':
            sig = flip(sig, bit)
        return p.certificate_verify(alg=alg_sent, sig=sig)

    def fin():
        v = p.sch.finished(p.sch.s_hs, p.th())
        if bad == 'finished flip':
            v = flip(v, bit)
        elif bad == 'finished short':
            v = v[:-1 - bit % (len(v) - 1)]
            # the parser already refuses a length that is not the one of the hash
        elif bad == 'finished empty':
            v = b''
        elif bad == 'finished by client':
            v = p.sch.finished(p.sch.c_hs, p.th())
        elif bad == 'finished other transcript':
            v = p.sch.finished(p.sch.s_hs, p.th(len(p.tr) - 1))
        return p.finished(value=v)
    tail = {'skip certificate': [cv, fin], 'skip verify': [ct, fin], 'skip both': [fin], 'skip finished': [ct, cv],
            'swap': [cv, ct, fin], 'finished twice': [ct, fin, fin], 'finished first': [fin, ct, cv]}.get(bad, [ct, cv, fin])
    e = None
    for s in steps + tail:
        e = tls.receive(n, s())
        p.feed(n.data_to_send())
        if e is not None:
            break
    name = f'{bad} (trust {trust or "nobody"}, {kind})'
    if bad == 'none':
        need(e is None and n.is_connected() and tls.state(n) == 'Connected', f'{name}: an honest server is refused: {e!r} {e.__cause__!r}' if e else f'{name}: not connected')
        need(p.fin_ok, f'{name}: the finished of the client is wrong')
        return
    if bad == 'skip finished':
        e = tls.receive(n, p.send(23, b'data'))
        p.feed(n.data_to_send())
    need(tls.state(n) != 'Connected' and not n.is_connected(), f'{name}: the client is connected')
    need(e is not None and tls.state(n) == 'Failed', f'{name}: the connection has not failed: {e!r} {tls.state(n)}')
    need(p.alerts()[-1:] and p.alerts()[-1][0] == 2, f'{name}: no fatal alert: {p.alerts()}')


def bad_rsa(a): return 0x0809 <= a <= 0x080b


_urls = {}


def leaf_with_url(host, kind):
    """a leaf that says where its status is"""
    if (host, kind) not in _urls:
        from cryptography import x509
        import datetime
        cc, ck = pki.ca()
        k = pki.key(kind)
        now = datetime.datetime.now(datetime.timezone.utc)
        _urls[host, kind] = (
            x509.CertificateBuilder().subject_name(pki.name(host)).issuer_name(cc.subject).public_key(k.public_key())
            .serial_number(x509.random_serial_number()).not_valid_before(now - datetime.timedelta(days=1))
            .not_valid_after(now + datetime.timedelta(days=9))
            .add_extension(x509.SubjectAlternativeName([pki.alt(host)]), False)
            .add_extension(x509.BasicConstraints(ca=False, path_length=None), True)
            .add_extension(x509.ExtendedKeyUsage([pki.ExtendedKeyUsageOID.SERVER_AUTH]), False)
            .add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(ck.public_key()), False)
            .add_extension(x509.AuthorityInformationAccess([x509.AccessDescription(
                x509.oid.AuthorityInformationAccessOID.OCSP, x509.UniformResourceIdentifier('http://ocsp.example/'))]), False)
            .sign(ck, pki.digest(ck)), k)
    return _urls[host, kind]
