"""C03 executable contracts of the hello extensions."""
from oracle.run import case, Fail
from oracle import wire as W
from siotls.serial import SerialIO
from siotls.contents import alerts


def gen(o):
    for n in W.EXT:
        for _ in range(6):
            yield dict(name=n, f=W.gen_ext(o, n))
    while True:
        n = o.rng.choice(list(W.EXT))
        yield dict(name=n, f=W.gen_ext(o, n))


@case(gen)
def roundtrip(name, f):
    ext = W.ext_make(name, f)
    before = W.fields(ext)
    try:
        got = ext.serialize()
    except (OverflowError, ValueError) as e:
        if not W.too_long(name, f):
            raise Fail(f'{name} could not be serialized: {type(e).__name__}: {e}')
        return
    if W.too_long(name, f):
        raise Fail(f'{name} does not fit in its length and was serialized')
    want = W.ext_wire(name, f)
    if bytes(got) != want:
        raise Fail(f'{name} serialized to {got[:60].hex()}.. instead of {want[:60].hex()}..')
    if W.fields(ext) != before:
        raise Fail(f'{name} was changed by serializing it')
    for m in W.EXT[name][1]:
        for tail in (b'', b'\x00\x01\xff'):
            s = SerialIO(want + tail)
            try:
                back = W.X.Extension.parse(s, handshake_type=W.ht(m))
            except Exception as e:  # noqa: BLE001
                raise Fail(f'{name} in {m} is not read back: {type(e).__name__}: {e}')
            if s.tell() != len(want):
                raise Fail(f'{name} in {m}: {s.tell()} bytes consumed of {len(want)}')
            if type(back) is not type(ext) or W.fields(back) != before or back != ext:
                raise Fail(f'{name} in {m} is read back as {back!r}'[:300])


def gen_limits(o):
    """values at the limits of each length field"""
    for n in (0, 1, 254, 255, 256, 257):
        yield dict(name='PskKeyExchangeModes', f=dict(modes=[1] * n))
        yield dict(name='UseSRTP', f=dict(p=[[0, 1]], mki='ab' * n))
        yield dict(name='PreSharedKeyRequest', f=dict(identities=[['00', 5]], binders=['cd' * n]))
        yield dict(name='ALPN', f=dict(p=['a' * n])) if n else dict(name='Padding', f=dict(n=0))
        yield dict(name='OIDFilters', f=dict(f=[['ab' * n, '']]))
        if n:
            yield dict(name='ClientCertificateTypeRequest', f=dict(t=[2] * n))
            yield dict(name='ServerCertificateTypeRequest', f=dict(t=[0] * n))
    for n in (0, 1, 126, 127, 128):
        yield dict(name='SupportedVersionsRequest', f=dict(versions=[0x304] * n))
    for n in (65527, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536):
        yield dict(name='Cookie', f=dict(c='ab' * n))
        yield dict(name='Padding', f=dict(n=n))
        yield dict(name='OCSPStatus', f=dict(r='ab' * n))
        yield dict(name='OCSPStatusRequest', f=dict(ids=[], exts='ab' * n))
        yield dict(name='OCSPStatusRequest', f=dict(ids=['ab' * n], exts=''))
        yield dict(name='KeyShareResponse', f=dict(g=23, k='ab' * n))
        yield dict(name='CertificateAuthorities', f=dict(a=['ab' * n]))
        yield dict(name='KeyShareRequest', f=dict(s=[[29, 'ab' * n]]))
        yield dict(name='PreSharedKeyRequest', f=dict(identities=[['ab' * n, 7]], binders=[]))
        yield dict(name='OIDFilters', f=dict(f=[['ab', 'cd' * n]]))
    for n in (32766, 32767, 32768):
        for name, k in (('SupportedGroups', 'groups'), ('SignatureAlgorithms', 'schemes'), ('SignatureAlgorithmsCert', 'schemes')):
            yield dict(name=name, f={k: [0x403 if k == 'schemes' else 23] * n})


@case(gen_limits)
def limits(name, f):
    roundtrip(name, f)


def gen_unknown(o):
    reg = {e[0] for e in W.EXT.values()}
    types = [t for t in (3, 4, 17, 22, 23, 35, 57, 0x0a0a, 0xfafa, 0xff01, 65535, 0xabcd, 13172) if t not in reg]
    for t in types + [int(x) for x in W.iana.ExtensionType if int(x) not in reg]:
        for d in ('', '00', 'ff' * 300):
            yield dict(t=t, data=d)
    while True:
        t = o.rng.randrange(65536)
        if t not in reg:
            yield dict(t=t, data=W.blob(o, 0, 65535))


@case(gen_unknown)
def unknown(t, data):
    d = bytes.fromhex(data)
    w = W.u(2, t) + W.vec(2, d)
    for m in (W.CH, W.SH, W.EE, W.CR, W.CE, W.HRR, W.NST):
        s = SerialIO(w + b'tail')
        try:
            e = W.X.Extension.parse(s, handshake_type=W.ht(m))
        except Exception as x:  # noqa: BLE001
            raise Fail(f'unknown extension {t} refused in {m}: {type(x).__name__}: {x}')
        if s.tell() != len(w) or int(e.extension_type) != t or bytes(e.extension_data) != d:
            raise Fail(f'unknown extension {t} read as {e!r}'[:200])
        if bytes(e.serialize()) != w:
            raise Fail(f'unknown extension {t} not preserved verbatim')
