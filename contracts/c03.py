"""C03: every hello extension: the bytes are those of the presentation language, and are read back."""
from pyvc.harness import *
from pyvc.harness import Task
from contracts import wire
from contracts.wire import u, vec, many, enums, ints, blobs, body_blobs, texts, byte_list

TASKS = []


def X():
    import siotls.contents.handshakes.extensions as m
    return m


def iana():
    import siotls.iana as m
    return m


def C(name, mod=None):
    import importlib
    m = X() if mod is None else importlib.import_module('siotls.contents.handshakes.extensions.' + mod)
    return getattr(m, name)


# -- one arbitrary value of every extension, and the bytes the RFC prescribes for its body ----

def cookie():
    b = bvar('cookie')
    return C('Cookie')(b), vec(2, b)


def alpn():
    names, body = texts('protocol', 1)
    return C('ALPN')(names), vec(2, body)


def certificate_authorities():
    l, body = blobs('authority', 2)
    return C('CertificateAuthorities')(l), vec(2, body)


def cert_type_req(name):
    def make():
        l, body = enums('ct', iana().CertificateType, 1)
        assume(nz(l.n) >= 1)
        return C(name)(l), vec(1, body)
    return make


def cert_type_resp(name):
    def make():
        t = senum(iana().CertificateType, 'ct')
        return C(name)(t), u(1, t)
    return make


def empty(name, mod=None):
    def make():
        return C(name, mod)(), b''
    return make


def new_session_early_data():
    v = sint('max_early_data_size', 0, 2 ** 32 - 1)
    return C('NewSessionEarlyData', 'early_data')(v), u(4, v)


def heartbeat():
    m = senum(iana().HeartbeatMode, 'mode')
    return C('Heartbeat')(m), u(1, m)


def key_share_request():
    groups, shares, items, body = wire.enum_blob_map('share', iana().NamedGroup)
    return C('KeyShareRequest')(items), vec(2, body)


def key_share_retry():
    g = senum(iana().NamedGroup, 'group')
    return C('KeyShareRetry')(g), u(2, g)


def key_share_response():
    g = wire.enum_or_int('group', iana().NamedGroup, 2)
    b = bvar('key_exchange')
    return C('KeyShareResponse')(g, b), concat(u(2, g), vec(2, b))


def max_fragment_length():
    c = senum(iana().MaxFragmentLengthCode, 'code')
    if choose([0, 1]):
        o = choose(list(iana().MaxFragmentLengthOctets)[:4])
        e = C('MaxFragmentLength')(octets=o)
        return e, u(1, {512: 1, 1024: 2, 2048: 3, 4096: 4}[int(o)])
    e = C('MaxFragmentLength')(c)
    return e, u(1, c)


def oid_filters():
    OF = C('OIDFilter')
    def elem(k):
        a, b = bapp_item('oid', k), bapp_item('values', k)
        ctx().assume(nz(blen(a)) < 256)
        ctx().assume(nz(blen(b)) < 65536)
        return OF(a, b)
    l = slist('filters', None, elem)
    body = many(l, lambda f: concat(wire.item(1, f.certificate_extension_oid), wire.item(2, f.certificate_extension_values)))
    return C('OIDFilters')(l), vec(2, body)


def bapp_item(name, k):
    return bvar(name, None, (nz(k),))


def padding():
    n = sint('zeros', 0)
    return C('Padding')(n), mkbytes((Rep(0, nz(zi(n))),))


def psk_request():
    PI = C('PskIdentity')
    def elem(k):
        a = bapp_item('identity', k)
        ctx().assume(nz(blen(a)) < 65536)
        t = wire.nat('age', 2 ** 32 - 1, (k,))
        return PI(a, t)
    l = slist('identities', None, elem)
    body = many(l, lambda f: concat(wire.item(2, f.identity), u(4, f.obfuscated_ticket_age)))
    binders, bbody = blobs('binder', 1)
    return C('PreSharedKeyRequest')(l, binders), concat(vec(2, body), vec(2, bbody))


def psk_response():
    v = sint('selected_identity', 0, 65535)
    return C('PreSharedKeyResponse')(v), u(2, v)


def psk_modes():
    l, body = enums('mode', iana().PskKeyExchangeMode, 1)
    return C('PskKeyExchangeModes')(l), vec(1, body)


def server_name():
    name, enc = wire.host_name('host')
    sn = C('HostName')(name)
    return C('ServerNameListRequest')([sn]), vec(2, concat(u(1, 0), vec(2, enc)))


def sign_algos(name):
    def make():
        l, body = enums('scheme', iana().SignatureScheme, 2)
        return C(name)(l), vec(2, body)
    return make


def status_request():
    l, body = blobs('responder', 2)
    b = bvar('request_extensions')
    return C('OCSPStatusRequest')(l, b), concat(u(1, 1), vec(2, body), vec(2, b))


def ocsp_status():
    b = bvar('response')
    return C('OCSPStatus')(b), concat(u(1, 1), vec(3, b))


def groups():
    l, body = enums('group', iana().NamedGroup, 2)
    return C('SupportedGroups')(l), vec(2, body)


def versions():
    l, body = enums('version', iana().TLSVersion, 2)
    return C('SupportedVersionsRequest')(l), vec(1, body)


def version():
    v = senum(iana().TLSVersion, 'version')
    assume(T(v) >= 0x0304)
    return C('SupportedVersionsResponse')(v), u(2, v)


def use_srtp():
    l, body = byte_list('profile', 2)
    b = bvar('mki')
    return C('UseSRTP')(l, b), concat(vec(2, body), vec(1, b))


CH, SH, EE, CR, CE, HRR, NST = ('CLIENT_HELLO', 'SERVER_HELLO', 'ENCRYPTED_EXTENSIONS', 'CERTIFICATE_REQUEST',
                                'CERTIFICATE', 'HELLO_RETRY_REQUEST', 'NEW_SESSION_TICKET')
# class -> (extension type, handshake messages that may carry it (RFC 8446 section 4.2 and the RFC of the extension), value)
TABLE = {
    'ServerNameListRequest': (0, (CH,), server_name),
    'ServerNameResponse': (0, (EE,), empty('ServerNameResponse')),
    'MaxFragmentLength': (1, (CH, EE), max_fragment_length),
    'OCSPStatusRequest': (5, (CH, CR), status_request),
    'OCSPStatus': (5, (CE,), ocsp_status),
    'SupportedGroups': (10, (CH, EE), groups),
    'SignatureAlgorithms': (13, (CH, CR), sign_algos('SignatureAlgorithms')),
    'UseSRTP': (14, (CH, EE), use_srtp),
    'Heartbeat': (15, (CH, EE), heartbeat),
    'ALPN': (16, (CH, EE), alpn),
    'SignedCertificateTimestamp': (18, (CH, CE, CR), empty('SignedCertificateTimestamp')),
    'ClientCertificateTypeRequest': (19, (CH,), cert_type_req('ClientCertificateTypeRequest')),
    'ClientCertificateTypeResponse': (19, (EE,), cert_type_resp('ClientCertificateTypeResponse')),
    'ServerCertificateTypeRequest': (20, (CH,), cert_type_req('ServerCertificateTypeRequest')),
    'ServerCertificateTypeResponse': (20, (EE,), cert_type_resp('ServerCertificateTypeResponse')),
    'Padding': (21, (CH,), padding),
    'PreSharedKeyRequest': (41, (CH,), psk_request),
    'PreSharedKeyResponse': (41, (SH,), psk_response),
    'EarlyData': (42, (CH, EE), empty('EarlyData')),
    'NewSessionEarlyData': (42, (NST,), new_session_early_data),
    'SupportedVersionsRequest': (43, (CH,), versions),
    'SupportedVersionsResponse': (43, (SH, HRR), version),
    'Cookie': (44, (CH, HRR), cookie),
    'PskKeyExchangeModes': (45, (CH,), psk_modes),
    'CertificateAuthorities': (47, (CH, CR), certificate_authorities),
    'OIDFilters': (48, (CR,), oid_filters),
    'PostHandshakeAuth': (49, (CH,), empty('PostHandshakeAuth')),
    'SignatureAlgorithmsCert': (50, (CH, CR), sign_algos('SignatureAlgorithmsCert')),
    'KeyShareRequest': (51, (CH,), key_share_request),
    'KeyShareResponse': (51, (SH,), key_share_response),
    'KeyShareRetry': (51, (HRR,), key_share_retry),
}


def handshake_type(name):
    i = iana()
    return i.HandshakeType_[name] if name == HRR else i.HandshakeType[name]


def roundtrip(cname, number, messages, make):
    def f():
        ext, body = make()
        got, e = attempt(ext.serialize)
        fits = nz(blen(body)) < 65536
        if e is not None:
            prove(f'{cname}: only refuses to serialize what does not fit', Or(Not(fits), wire.too_long()), exc_name(e))
            return
        prove(f'{cname}: serialized only when it fits', And(fits, Not(wire.too_long())))
        prove(f'{cname}: type, length and body are those of the presentation language',
              beq(got, concat(u(2, number), vec(2, body))))
        m = choose(messages)
        import siotls.serial as ser
        s = ser.SerialIO(got)
        back, e = attempt(X().Extension.parse, s, handshake_type=handshake_type(m))
        if e is not None:
            fail(f'{cname}: read back in {m}', exc_name(e))
            return
        prove(f'{cname}: read back in {m} as the same class', type(back) is type(ext))
        if type(back) is type(ext):
            for a in sorted(set(vars(ext)) | set(vars(back))):
                prove(f'{cname}: field {a} is read back equal',
                      wire.same(vars(back).get(a), vars(ext).get(a)))
            prove(f'{cname}: the extension is its own class type', int(back.extension_type) == number)
        prove(f'{cname}: every byte is consumed', T(s.tell()) == nz(blen(got)))
        cover(cname)
    return f


for _n, (_num, _ms, _mk) in TABLE.items():
    TASKS.append(Task(_n, roundtrip(_n, _num, _ms, _mk)))


def unknown():
    """an extension of a type that has no class: kept verbatim, for every handshake message"""
    import siotls.serial as ser
    i = iana()
    registered = {n for n, _, _ in TABLE.values()}
    m = choose([CH, SH, EE, CR, CE, HRR, NST])
    t = sint('extension_type', 0, 65535)
    for n in registered:
        assume(T(t) != n)
    if choose([0, 1]):
        t = choose([x for x in i.ExtensionType if int(x) not in registered] or [70000])
        if t == 70000:
            raise PathEnd
    else:
        for x in i.ExtensionType:
            assume(T(t) != int(x))
    body, tail = bvar('body'), bvar('tail')
    assume(nz(blen(body)) < 65536)
    wirebytes = concat(u(2, t), wire.item(2, body))
    s = ser.SerialIO(concat(wirebytes, tail))
    ext, e = attempt(X().Extension.parse, s, handshake_type=handshake_type(m))
    if e is not None:
        fail('unknown: accepted in every message', exc_name(e))
        return
    prove('unknown: consumes exactly the extension', T(s.tell()) == nz(blen(wirebytes)))
    prove('unknown: the type is kept', T(ext.extension_type) == T(t))
    prove('unknown: the body is kept verbatim', beq(ext.extension_data, body))
    got, e = attempt(ext.serialize)
    prove('unknown: serialized to the bytes it came from', beq(got, wirebytes) if e is None else False, exc_name(e))
    # and again, the type being known by now
    s = ser.SerialIO(concat(got, tail))
    ext2, e = attempt(X().Extension.parse, s, handshake_type=handshake_type(m))
    prove('unknown: read back in the same message', e is None, exc_name(e))
    if e is None:
        prove('unknown: read back equal', And(beq(ext2.extension_data, body), T(ext2.extension_type) == T(t)))
        prove('unknown: read back as the same class', type(ext2) is type(ext))
    cover('unknown')


TASKS.append(Task('unknown', unknown))
