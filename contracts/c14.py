"""C14: the server picks its most preferred mutually supported parameters."""
from contracts.serverflow import *

TASKS = []


def answer(vary, kind='ed25519', material='x509', ocsp=False):
    def f():
        from siotls import iana
        E, C = iana.ExtensionType, iana.CertificateType
        c = server(vary, kind, material, ocsp)
        cfg = c.config
        h = hello(vary)
        x = h.extensions
        e = receive(c, h)
        sent = [s[1] for s in of('sent')]
        types = [C.X509] * (material != 'raw') + [C.RAW_PUBLIC_KEY] * (material != 'x509')
        theirs_types = x[E.SERVER_CERTIFICATE_TYPE].certificate_types if E.SERVER_CERTIFICATE_TYPE in x else [C.X509]
        serves = lambda a: Or(*[T(a) == n for n in ALGORITHMS[kind]])  # noqa: E731
        if e is not None:
            refused(c, e, h, types, theirs_types, serves, kind)
            return
        n = c.nconfig
        prove('the suite in use is the one selected', len(of('suite')) == 1 and T(n.cipher_suite) == of('suite')[0][1])
        first_common('the suite', n.cipher_suite, cfg.cipher_suites, 'our suites', h.cipher_suites)
        prove('TLS 1.3 was offered', E.SUPPORTED_VERSIONS in x and isin(iana.TLSVersion.TLS_1_3, x[E.SUPPORTED_VERSIONS].versions))
        prove('groups were offered', E.SUPPORTED_GROUPS in x)
        first_common('the group', n.key_exchange, cfg.key_exchanges, 'our groups', x[E.SUPPORTED_GROUPS].named_group_list)
        prove('signature algorithms were offered', E.SIGNATURE_ALGORITHMS in x)
        first_common('the algorithm', which_algorithm(c, cfg.signature_algorithms), cfg.signature_algorithms, 'our algorithms',
                     x[E.SIGNATURE_ALGORITHMS].supported_signature_algorithms, serves)
        first = sent[0]
        prove('the first answer is for the suite selected', T(first.cipher_suite) == T(n.cipher_suite))
        prove('the session id is echoed', beq(first.legacy_session_id_echo, h.legacy_session_id))
        v = ext(first, E.SUPPORTED_VERSIONS)
        prove('the version selected is TLS 1.3', v is not None and T(v.selected_version) == 0x0304)
        k = ext(first, E.KEY_SHARE)
        prove('the answer names the group selected', k is not None and T(k.group if hasattr(k, 'group') else k.selected_group) == T(n.key_exchange))
        prove('the answer has no other extension', kinds(first) == [43, 51], f'{kinds(first)}')
        offered = E.KEY_SHARE in x and sym.atom('first share offered', T(n.key_exchange))
        if int(first.msg_type) == 2 and type(first).__name__ == 'HelloRetryRequest':
            prove('a retry is asked for only when there is no share for the group', Not(offered) if offered is not False else True)
            prove('a retry is the only answer', [type(m).__name__ for m in sent] == ['HelloRetryRequest', 'ChangeCipherSpec'])
            prove('the server waits for another hello', state(c) == 'ServerWaitClientHello')
            cover('retry')
            return
        prove('a hello is sent when there is a share for the group', offered)
        r = of('resume')
        prove('the key is shared over the group selected, with the share of the client', len(r) == 1 and And(
            T(n.key_exchange) == r[0][1], beq(r[0][3], bvar('first share', idx=(T(n.key_exchange),)))))
        prove('the share sent is the one made for it', len(of('init')) == 1 and of('init')[0][2] is r[0][2] and
              beq(k.key_exchange, of('init')[0][3]))
        cover('hello')
        ee = [m for m in sent if type(m).__name__ == 'EncryptedExtensions']
        prove('there is one message of encrypted extensions', len(ee) == 1)
        ee = ee[0]
        allowed = {int(t) for t in (E.SERVER_CERTIFICATE_TYPE, E.MAX_FRAGMENT_LENGTH, E.APPLICATION_LAYER_PROTOCOL_NEGOTIATION,
                                    E.HEARTBEAT) if t in x}
        prove('optional answers are for extensions of the client', set(kinds(ee)) <= allowed, f'{kinds(ee)}')
        # certificate types
        t = n.server_certificate_type
        first_common('the certificate type', t, types, '', theirs_types)
        a = ext(ee, E.SERVER_CERTIFICATE_TYPE)
        if E.SERVER_CERTIFICATE_TYPE in x:
            prove('the certificate type is answered', a is not None and T(a.certificate_type) == T(t))
            cover('certificate type')
        # the certificate is of that type
        entries = [m for m in sent if type(m).__name__ == 'Certificate'][0].certificate_list
        prove('the certificate is of the type selected', all(int(y.certificate_type) == int(t) for y in entries) and len(entries) >= 1)
        # fragment length
        a = ext(ee, E.MAX_FRAGMENT_LENGTH)
        if E.MAX_FRAGMENT_LENGTH in x:
            prove('the fragment length asked for is agreed to', a is not None and And(
                T(a.octets) == T(x[E.MAX_FRAGMENT_LENGTH].octets), T(n.max_fragment_length) == T(a.octets),
                T(c.max_fragment_length) == T(a.octets)))
            cover('fragment length')
        else:
            prove('the fragment length is that configured', T(n.max_fragment_length) == T(cfg.max_fragment_length))
        # protocols
        a = ext(ee, E.APPLICATION_LAYER_PROTOCOL_NEGOTIATION)
        if a is not None:
            prove('one protocol is answered, the one selected', len(a.protocol_name_list) == 1 and
                  T(a.protocol_name_list[0]) == T(n.alpn))
            first_common('the protocol', n.alpn, cfg.alpn, 'our protocols',
                         x[E.APPLICATION_LAYER_PROTOCOL_NEGOTIATION].protocol_name_list)
            cover('protocol')
        else:
            prove('no protocol is selected without an answer', n.alpn is None)
            if E.APPLICATION_LAYER_PROTOCOL_NEGOTIATION in x:
                prove('protocols are answered when some are configured', T(desym(cfg.alpn).n) == 0 if isinstance(desym(cfg.alpn), SList) else not cfg.alpn)
                cover('no protocol')
        # heartbeat
        a = ext(ee, E.HEARTBEAT)
        if E.HEARTBEAT in x:
            prove('the heartbeat answer is the mode configured', a is not None and int(a.mode) == (1 if cfg.can_echo_heartbeat else 2))
            prove('heartbeats are sent only to a client that allows it', truth(n.can_send_heartbeat) == (T(x[E.HEARTBEAT].mode) == 1))
            cover('heartbeat')
        else:
            prove('no heartbeat without the extension', n.can_send_heartbeat is False and n.can_echo_heartbeat is False)
    return f


def truth(x):
    return z3.BoolVal(x) if isinstance(x, bool) else cond(x)


def refused(c, e, h, types, theirs_types, serves, kind):
    """the alert is the one of something that is missing"""
    from siotls import iana
    from siotls.contents import alerts
    E = iana.ExtensionType
    x = h.extensions
    cfg = c.config
    prove('a hello is refused with an alert', isinstance(e, alerts.TLSFatalAlert), exc_name(e))
    name = type(e).__name__
    cover(name)
    prove('a hello refused does not advance the handshake', state(c) == 'ServerWaitClientHello' and not of('sent'))
    if name == 'ProtocolVersion':
        prove('the protocol version alert is for a client without TLS 1.3', E.SUPPORTED_VERSIONS not in x or Not(
            isin(iana.TLSVersion.TLS_1_3, x[E.SUPPORTED_VERSIONS].versions)))
    elif name == 'MissingExtension':
        prove('the missing extension alert is for a mandatory extension',
              E.SUPPORTED_GROUPS not in x or E.SIGNATURE_ALGORITHMS not in x)
    elif name == 'UnsupportedCertificate':
        prove('the unsupported certificate alert is for no common type', none_common('type', types, theirs_types))
    elif name == 'NoApplicationProtocol':
        prove('the protocol alert is for no common protocol', none_common(
            'protocol', cfg.alpn, x[E.APPLICATION_LAYER_PROTOCOL_NEGOTIATION].protocol_name_list))
    elif name == 'HandshakeFailure' or of('resume'):
        bad_share = any(not r[4] for r in of('resume'))
        if not bad_share:
            # one of the three lists has nothing in common: for arbitrary elements of ours
            conds = [none_common('suite', cfg.cipher_suites, h.cipher_suites)]
            if E.SUPPORTED_GROUPS in x:
                conds.append(none_common('group', cfg.key_exchanges, x[E.SUPPORTED_GROUPS].named_group_list))
            if E.SIGNATURE_ALGORITHMS in x:
                conds.append(none_common('algorithm', cfg.signature_algorithms,
                                         x[E.SIGNATURE_ALGORITHMS].supported_signature_algorithms, serves))
            prove('the handshake failure alert is for nothing in common, or a bad share', Or(*conds))
        else:
            cover('bad share')
    else:
        prove('no other alert', False, name)


CASES = {
    'versions': (('versions',), {}), 'suites': (('suites',), {}), 'groups and shares': (('groups', 'shares'), {}),
    'heartbeat': (('heartbeat',), {}), 'protocols': (('alpn',), {}), 'fragment length': (('fragments',), {}),
    'status': (('status',), dict(ocsp=True)),
    'everything missing': (('versions', 'groups', 'shares'), {}),
}
for _m in ('x509', 'raw', 'both'):
    CASES[f'certificate types, {_m}'] = (('server types', 'client types'), dict(material=_m))
for _k in ALGORITHMS:
    for _m in ('x509', 'raw'):
        CASES[f'algorithms of {_k}, {_m}'] = (('algorithms',), dict(kind=_k, material=_m))
CASES['optional answers together'] = (('fragments', 'alpn', 'heartbeat', 'server types'), {})
for _n, (_v, _k) in CASES.items():
    TASKS.append(Task(_n, answer(set(_v), **_k), cost=5))
