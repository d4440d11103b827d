"""Connections of the real code brought to any point of a handshake, by the independent peer of tls.py."""
import importlib
from oracle import tls, pki

conf = importlib.import_module('siotls.configuration')
conn = importlib.import_module('siotls.connection')
iana = importlib.import_module('siotls.iana')
from cryptography.x509.verification import Store  # noqa: E402

SUITES = list(tls.SUITES)
GROUPS = [29, 23, 24, 25, 30, 256, 257]


def store(): return Store([pki.ca()[0]])


def server(ocsp_service=None, kind='p256', raw=False, **cfg):
    c, k = pki.leaf(kind=kind)
    d = dict(private_key=k, cipher_suites=suites(SUITES), key_exchanges=groups([29, 23, 24]))
    if raw:
        d['public_key'] = k.public_key()
    else:
        d['certificate_chain'] = [c, pki.ca()[0]]
    d.update(cfg)
    n = conn.TLSConnection(conf.TLSConfiguration('server', **d), ocsp_service=ocsp_service)
    return n


def client(server_hostname='example.com', ocsp_service=None, auth=True, **cfg):
    d = dict(cipher_suites=suites(SUITES), key_exchanges=groups([29, 23, 24]))
    if auth:
        d['trust_store'] = store()
    d.update(cfg)
    return conn.TLSConnection(conf.TLSConfiguration('client', **d), server_hostname=server_hostname,
                              ocsp_service=ocsp_service)


def suites(l): return [iana.CipherSuites(x) for x in l]
def groups(l): return [iana.NamedGroup(x) for x in l]
def algs(l): return [iana.SignatureScheme(x) for x in l]


CLIENT = ['ClientStart', 'ClientWaitServerHello', 'ClientWaitServerHello2', 'ClientWaitEncryptedExtensions',
          'ClientWaitCertCr', 'ClientWaitCertificate', 'ClientWaitCertificateVerify', 'ClientWaitFinished', 'Connected']
SERVER = ['ServerStart', 'ServerWaitClientHello', 'ServerWaitClientHello2', 'ServerWaitFinished', 'Connected']


def at(point, suite=None, hrr=False, cfg=None, n=None, ee=(), chain=None):
    """(connection, peer) at the point named"""
    cfg = cfg or {}
    if point in SERVER and not point.startswith('Client'):
        return server_at(point, suite, hrr, cfg, n)
    return client_at(point, suite, hrr, cfg, n, ee, chain)


def ok(e, what):
    if e is not None:
        raise RuntimeError(f'{what}: {e!r}')


def server_at(point, suite=None, hrr=False, cfg=None, n=None, extra=()):
    n = n or server(**(cfg or {}))
    p = tls.Client(suites=[suite] if suite else SUITES[::-1], groups=[29, 23], extra=extra,
                   shares=[] if (hrr or point.endswith('2')) else [29])
    if point == 'ServerStart':
        return n, p
    n.initiate_connection()
    if point == 'ServerWaitClientHello':
        return n, p
    if hrr or point.endswith('2'):
        ok(tls.receive(n, p.hello()), 'first hello')
        p.feed(n.data_to_send())
        p.shares[29] = tls.Share(29)
        if point.endswith('2'):
            return n, p
    ok(tls.receive(n, p.hello()), 'hello')
    p.feed(n.data_to_send())
    if point == 'ServerWaitFinished':
        return n, p
    ok(tls.receive(n, p.finished()), 'finished')
    p.application()
    return n, p


def client_at(point, suite=None, hrr=False, cfg=None, n=None, ee=(), chain=None):
    n = n or client(**(cfg or {}))
    c, k = pki.leaf()
    p = tls.Server(suite=suite, key=k)
    p.chain = chain or [(pki.der(c), []), (pki.der(pki.ca()[0]), [])]
    if point == 'ClientStart':
        return n, p
    n.initiate_connection()
    p.feed(n.data_to_send())
    if point == 'ClientWaitServerHello':
        return n, p
    if hrr or point.endswith('2'):
        ok(tls.receive(n, p.retry(group=23)), 'retry')
        p.feed(n.data_to_send())
        if point.endswith('2'):
            return n, p
    for name, step in (('ClientWaitEncryptedExtensions', p.hello), ('ClientWaitCertCr', lambda: p.encrypted(ee)),
                       ('ClientWaitCertificate', None),
                       ('ClientWaitCertificateVerify', lambda: p.certificate(p.chain)),
                       ('ClientWaitFinished', p.certificate_verify), ('Connected', p.finished)):
        if step is None:
            if point == name:
                ok(tls.receive(n, p.request()), 'request')
                return n, p
            continue
        ok(tls.receive(n, step()), name)
        if point == name and name != 'Connected':
            return n, p
    p.feed(n.data_to_send())
    return n, p


def connected(side, **k):
    return server_at('Connected', **k) if side == 'server' else client_at('Connected', **k)
