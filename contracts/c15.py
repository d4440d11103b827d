"""C15: the client accepts only parameters it offered, and offers its configuration."""
import ipaddress
from contracts.states import *
from contracts import states as S
from contracts.serverflow import theirs, extension
from pyvc import rt

TASKS = []
HOSTS = {None: False, 'server.example': True, 'localhost': True, 'a.b.c.d.example': True, '1.2.3': True, '192.0.2.1': False,
         '2001:db8::1': False, '::1': False, 'any': None}


class Hello(Content_):
    """the hello of the client, as it is queued"""


def same(a, b):
    """the same elements in the same order"""
    a, b = desym(a), desym(b)
    if not isinstance(a, SList) or not isinstance(b, SList):
        if isinstance(a, SList) or isinstance(b, SList):
            a, b = (SList([('c', list(x))]) if not isinstance(x, SList) else x for x in (a, b))
        else:
            return len(a) == len(b) and And(*[T(x) == T(y) for x, y in zip(a, b, strict=True)])
    k = sint('some element', 0)
    return And(T(a.n) == T(b.n), Implies(And(T(k) < T(a.n), T(a.n) == T(b.n)), T(a.at(T(k))) == T(b.at(T(k)))))


def client(vary=(), host='server.example', **over):
    from siotls import iana
    contracts()
    if 'alpn' in vary:
        over['alpn'] = intlist('our protocols', 0, 65535)
    if 'heartbeat' in vary:
        over['can_echo_heartbeat'] = choose([True, False])
    if 'trust' in vary:
        over['trust_store'] = choose([None, Opaque('store', 'trust store')])
        if choose([0, 1]):
            over['trusted_public_keys'] = [models.pubkey('trusted')]
    if 'own' in vary:
        over['public_key'] = choose([None, models.pubkey('our public key')])
        over['certificate_chain'] = choose([None, [Opaque('cert', 'our certificate')]])
    if 'few' in vary:
        over['cipher_suites'] = [iana.CipherSuites(0x1301), iana.CipherSuites(0x1302)]
    c = connection('client', config('client', **over), server_hostname=host)
    if 'fragments' in vary:
        object.__setattr__(c.config, 'max_fragment_length', senum(iana.MaxFragmentLengthOctets, 'our fragment length'))
    return c


def names(c):
    """models of ip_address and HostName, for an arbitrary name"""
    real = ipaddress.ip_address

    def ip(x):
        if isinstance(desym(x), Opaque):
            if not bool(sym.atom('is an address')):
                raise ValueError('not an address')
            return Opaque('address', 'address')
        return real(x)
    rt.MODELS[ipaddress.ip_address] = ip


def offers(c, h, host, cookie=None):
    """the hello offers the configuration"""
    from siotls import iana
    E, C = iana.ExtensionType, iana.CertificateType
    cfg, x = c.config, h.extensions
    prove('the random is that of the connection', beq(h.random, c._client_unique))
    prove('the suites offered are those configured, in order', same(h.cipher_suites, cfg.cipher_suites))
    need = {'the versions': E.SUPPORTED_VERSIONS, 'the groups': E.SUPPORTED_GROUPS, 'the algorithms': E.SIGNATURE_ALGORITHMS,
            'the shares': E.KEY_SHARE}
    for n, t in need.items():
        prove(f'{n} are offered', t in x, f'{[int(t) for t in x]}')
    if not all(t in x for t in need.values()):
        return None
    prove('TLS 1.3 only is offered', same(x[E.SUPPORTED_VERSIONS].versions, [0x0304]))
    prove('the groups offered are those configured, in order', same(x[E.SUPPORTED_GROUPS].named_group_list, cfg.key_exchanges))
    prove('the signature algorithms offered are those configured, in order',
          same(x[E.SIGNATURE_ALGORITHMS].supported_signature_algorithms, cfg.signature_algorithms))
    has = E.APPLICATION_LAYER_PROTOCOL_NEGOTIATION in x
    prove('protocols are offered when there are some', has or Not(bool(cfg.alpn)))
    if has:
        prove('the protocols offered are those configured, in order',
              same(x[E.APPLICATION_LAYER_PROTOCOL_NEGOTIATION].protocol_name_list, cfg.alpn))
        cover('alpn')
    # without the extension X.509 is offered (RFC 7250 4.1)
    for what, t, want in (('the own certificate types', E.CLIENT_CERTIFICATE_TYPE, cfg.certificate_types),
                          ('the certificate types of the peer', E.SERVER_CERTIFICATE_TYPE, cfg.peer_certificate_types)):
        got = x[t].certificate_types if t in x else [C.X509]
        prove(f'{what} offered are those configured, in order', [int(v) for v in got] == [int(v) for v in want or [C.X509]],
              f'{got} {want}')
    sni = E.SERVER_NAME in x
    named = HOSTS[host] if host in HOSTS and host != 'any' else None
    if named is None:
        named = Not(sym.atom('is an address'))
    prove('the name is sent when it is a host name, and only then', Implies(True, named) if sni else Not(named), f'{host}')
    if sni:
        prove('it is the name asked for', x[E.SERVER_NAME].host_name.host_name is c.server_hostname)
        cover('name')
    prove('the cookie received is returned', (E.COOKIE in x) == (cookie is not None))
    if cookie is not None and E.COOKIE in x:
        prove('the cookie received is returned as it was', beq(x[E.COOKIE].cookie, cookie))
    inits = of('init')
    first = desym(cfg.key_exchanges)
    first = first.at(I(0)) if isinstance(first, SList) else first[0]
    mine = [i for i in inits if ctx().must(T(first) == i[1])]
    prove('a share is made for the first group', len(mine) == 1, f'{[i[1] for i in inits]}')
    if not mine:
        return None
    shares = rt.dict_items(x[E.KEY_SHARE].client_shares)
    got = [v for k, v in shares if ctx().must(T(k) == mine[0][1])]
    prove('the share of the first group is sent', len(got) == 1 and beq(got[0], mine[0][3]))
    prove('every share sent is of a group offered, made for it', all(
        any(v is i[3] and ctx().must(T(k) == i[1]) for i in inits) for k, v in shares))
    return inits


def start(host, second, vary=()):
    def f():
        name = Opaque('text', 'the name asked for') if host == 'any' else host
        c = client(vary, name)
        names(c)
        cookie = None
        if second:
            negotiated(c)
            c._cipher = suite()
            cookie = choose([None, bvar('cookie')])
            if cookie is not None:
                assume(T(blen(cookie)) >= 1)
            enter(c, 'ClientStart', cookie=cookie)
        else:
            events().clear()
        cfg = c.config
        _, e = attempt(c._state.initiate_connection)
        prove('a hello is made', e is None, exc_name(e))
        if e is not None:
            return
        prove('the configuration is as it was', c.config is cfg)
        sent = of('sent')
        prove('one message is queued, a client hello', len(sent) == 1 and sent[0][2] == 22 and int(sent[0][1].msg_type) == 1)
        inits = offers(c, sent[0][1], host, cookie)
        if inits is None:
            return
        prove('the client waits for the server hello', state(c) == 'ClientWaitServerHello', state(c))
        cover('hello')
        if not vary:
            waiting(c, inits)
    return f


def waiting(c, inits):
    """the state has the private keys of the shares sent: an answer uses them"""
    from siotls import iana
    n = len(events())
    c._transcript.done.append(('message', 'server', 2))
    e, g, m = answer(c, version=iana.TLSVersion.TLS_1_3)
    r = of('resume')
    if e is None:
        i = [i for i in inits if ctx().must(T(g) == i[1])]
        prove('an answer is for a group that a share was sent for', len(i) == 1)
        prove('the private key is that of the share sent', len(r) == 1 and len(i) == 1 and r[0][2] is i[0][2])
        cover('answered')


def answer(c, version=None, retry=False, tag=''):
    """a server hello with any content"""
    from siotls import iana
    E = iana.ExtensionType
    x = {}
    g = senum(iana.NamedGroup, 'group of the server' + tag)
    if version is not None or choose([1, 0]):
        x[E.SUPPORTED_VERSIONS] = extension(selected_version=version or senum(iana.TLSVersion, 'version of the server'))
    if version is not None or choose([1, 0]):
        x[E.KEY_SHARE] = extension(selected_group=g) if retry else extension(group=g, key_exchange=bvar('share of the server'))
    if retry and choose([1, 0]):
        x[E.COOKIE] = extension(cookie=bvar('cookie', None))
        assume(T(blen(bvar('cookie'))) >= 1)
    s = senum(iana.CipherSuites, 'suite of the server' + tag)
    t = iana.HandshakeType_.HELLO_RETRY_REQUEST if retry else iana.HandshakeType.SERVER_HELLO
    m = Content_(content_type=iana.ContentType.HANDSHAKE, msg_type=t, cipher_suite=s, random=bvar('random of the server', 32),
                 legacy_session_id_echo=bvar('session id'), extensions=x)
    return process(c, m), g, m


def versions(m):
    from siotls import iana
    v = m.extensions.get(iana.ExtensionType.SUPPORTED_VERSIONS)
    return v is not None and T(v.selected_version) == 0x0304


def refused(c, e, m, cfg, g, retry, ours):
    """why a server hello may be refused, and with what alert"""
    from siotls import iana
    suite_ok = isin(m.cipher_suite, cfg.cipher_suites)
    version_ok = versions(m)
    share = m.extensions.get(iana.ExtensionType.KEY_SHARE)
    # a retry for a group whose share was sent may be refused (RFC 8446 4.1.4)
    group_ok = share is not None and (And(isin(g, cfg.key_exchanges), T(g) != 29) if retry else ours)
    r = of('resume')
    bad = bool(r) and r[0][4] == 0
    prove('an answer is refused with an alert', is_alert(e, 'IllegalParameter', 'ProtocolVersion', 'MissingExtension'), exc_name(e))
    prove('the connection has not moved', state(c) == 'ClientWaitServerHello' and not of('handshake_keys'))
    prove('an answer is refused for a reason', Not(And(suite_ok, version_ok, group_ok, not bad)))
    if is_alert(e, 'ProtocolVersion'):
        prove('protocol version is for a version not offered', Not(version_ok))
        cover('version')
    if is_alert(e, 'MissingExtension'):
        prove('missing extension is for no share', share is None)
        cover('missing')
    if is_alert(e, 'IllegalParameter'):
        prove('illegal parameter is for a selection that was not offered, or a bad share', Or(
            Not(suite_ok), And(m.extensions.get(iana.ExtensionType.SUPPORTED_VERSIONS) is not None, Not(version_ok)),
            And(share is not None, Not(group_ok)), bad))
        cover('illegal')


def hello(second):
    """a server hello, first or after a retry"""
    def f():
        from siotls import iana
        c = client()
        cfg = c.config
        n = choose([int(k) for k in iana.NamedGroup])
        private = Opaque('private key', 'ours')
        if second:
            negotiated(c, cipher_suite=iana.CipherSuites(0x1301))
            c._cipher = suite()
            cfg = rt.MODELS.get('x') or cfg
            object.__setattr__(c.config, 'cipher_suites', [iana.CipherSuites(0x1301)])
            object.__setattr__(c.config, 'key_exchanges', [iana.NamedGroup(n)])
        enter(c, 'ClientWaitServerHello', key_shares={iana.NamedGroup(n): private},
              client_hello_transcript_hashes={'sha256': bvar('h256'), 'sha384': bvar('h384')})
        if not second:
            assume(isin(iana.NamedGroup(n), cfg.key_exchanges))
        c._transcript.done.append(('message', 'server', 2))
        e, g, m = answer(c)
        ours = T(g) == n
        if e is not None:
            refused(c, e, m, cfg, g, False, ours)
            return
        cover('accepted')
        prove('the client goes on with the encrypted extensions', state(c) == 'ClientWaitEncryptedExtensions', state(c))
        prove('the suite was offered', isin(m.cipher_suite, cfg.cipher_suites))
        prove('the suite is recorded', T(c.nconfig.cipher_suite) == T(m.cipher_suite))
        prove('the suite in use is that one', T(m.cipher_suite) == int(c._cipher.iana_id))
        prove('the version is TLS 1.3', versions(m))
        prove('the group is one that a share was sent for', ours)
        prove('the group is recorded', T(c.nconfig.key_exchange) == T(g))
        r = of('resume')
        prove('the shared key is that of our private key and the share of the server', len(r) == 1 and r[0][4] == 1 and And(
            T(g) == r[0][1], r[0][2] is private, beq(r[0][3], bvar('share of the server'))))
        h = of('handshake_keys')
        prove('the handshake keys are installed from it', len(h) == 1 and And(beq(h[0][1], r[0][5]),
                                                                             beq(h[0][2], c._transcript.digest())))
        prove('they are those of the suite in use', h[0][3] is c._cipher)
        prove('no hello is sent', all(s[2] == 20 for s in of('sent')))
        prove('the random of the server is that of its hello', beq(c._server_unique, bvar('random of the server')))
    return f


def retry(which):
    """a hello retry request"""
    def f():
        from siotls import iana
        c = client({'few'} if which == 'few' else ())
        cfg = c.config
        hashes = {'sha256': bvar('h256'), 'sha384': bvar('h384')}
        enter(c, 'ClientWaitServerHello', key_shares={iana.NamedGroup(29): Opaque('private key', 'ours')},
              client_hello_transcript_hashes=hashes)
        c._transcript.done.append(('message', 'server', 2))
        e, g, m = answer(c, retry=True)
        if e is not None:
            refused(c, e, m, cfg, g, True, None)
            prove('a refused retry is not answered', all(s[2] == 20 for s in of('sent')))
            return
        cover('accepted')
        prove('the suite was offered', isin(m.cipher_suite, cfg.cipher_suites))
        prove('the suite is recorded', T(c.nconfig.cipher_suite) == T(m.cipher_suite))
        prove('the suite in use is that one', T(m.cipher_suite) == int(c._cipher.iana_id))
        prove('the version is TLS 1.3', versions(m))
        prove('the group was offered', isin(g, cfg.key_exchanges))
        prove('the client waits for the server hello', state(c) == 'ClientWaitServerHello', state(c))
        hellos = [s[1] for s in of('sent') if s[2] == 22]
        prove('one hello answers it', len(hellos) == 1 and int(hellos[0].msg_type) == 1)
        if len(hellos) != 1:
            return
        h = hellos[0]
        prove('it offers the suite selected', isin(m.cipher_suite, h.cipher_suites))
        prove('the algorithms are as they were', same(c.config.signature_algorithms, cfg.signature_algorithms))
        prove('the side is as it was', c.config.side == 'client' and c.config.other_side == 'server')
        offers(c, h, 'server.example', bvar('cookie') if iana.ExtensionType.COOKIE in m.extensions else None)
        if which == 'few' and choose([1, 0]):
            # the hello that follows
            from siotls import iana as i
            c._transcript.done.append(('message', 'server', 2))
            n = len(of('resume'))
            e, g2, m2 = answer(c, version=i.TLSVersion.TLS_1_3, tag=' then')
            if e is None:
                prove('the hello after a retry is for the suite of the retry', T(m2.cipher_suite) == T(m.cipher_suite))
                prove('the hello after a retry is for the group of the retry', T(g2) == T(g))
                prove('the suite in use is still that one', T(m.cipher_suite) == int(c._cipher.iana_id))
                cover('hello after a retry')
            else:
                prove('the hello after a retry is refused for a reason', Or(
                    Not(T(m2.cipher_suite) == T(m.cipher_suite)), Not(T(g2) == T(g)), any(r[4] == 0 for r in of('resume')[n:])))
            return
        # and the next retry is refused
        c._transcript.done.append(('message', 'server', 2))
        k = len(of('sent'))
        e, _, _ = answer(c, version=iana.TLSVersion.TLS_1_3, retry=True)
        prove('a second retry is refused as unexpected', is_alert(e, 'UnexpectedMessage'), exc_name(e))
        prove('a second retry is not answered', len(of('sent')) == k)
        cover('second retry')
    return f


def encrypted(vary):
    def f():
        from siotls import iana
        E, C, O = iana.ExtensionType, iana.CertificateType, iana.MaxFragmentLengthOctets
        c = client(set(vary) | ({'trust', 'own'} if 'types' in vary else set()))
        negotiated(c, cipher_suite=iana.CipherSuites(0x1301), key_exchange=iana.NamedGroup(29))
        c._cipher = suite()
        enter(c, 'ClientWaitEncryptedExtensions')
        cfg = c.config
        x = {}
        if 'fragments' in vary and choose([1, 0]):
            x[E.MAX_FRAGMENT_LENGTH] = extension(octets=senum(O, 'length of the server'))
        if 'alpn' in vary and choose([1, 0]):
            x[E.APPLICATION_LAYER_PROTOCOL_NEGOTIATION] = extension(protocol_name_list=theirs('protocols of the server', True, ()))
        if 'types' in vary:
            for t in (E.CLIENT_CERTIFICATE_TYPE, E.SERVER_CERTIFICATE_TYPE):
                if choose([1, 0]):
                    x[t] = extension(certificate_type=senum(C, f'type {int(t)} of the server'))
        if 'heartbeat' in vary and choose([1, 0]):
            x[E.HEARTBEAT] = extension(mode=senum(iana.HeartbeatMode, 'mode of the server'))
        c._transcript.done.append(('message', 'server', 8))
        e = process(c, Content_(content_type=iana.ContentType.HANDSHAKE, msg_type=iana.HandshakeType.ENCRYPTED_EXTENSIONS, extensions=x))
        f = x.get(E.MAX_FRAGMENT_LENGTH)
        p = x.get(E.APPLICATION_LAYER_PROTOCOL_NEGOTIATION)
        types = [(t, x[t].certificate_type if t in x else None, l) for t, l in
                 ((E.CLIENT_CERTIFICATE_TYPE, cfg.certificate_types), (E.SERVER_CERTIFICATE_TYPE, cfg.peer_certificate_types))]
        ok_f = f is None or T(f.octets) == T(cfg.max_fragment_length)
        one = p is None or T(desym(p.protocol_name_list).n) == 1
        ok_p = p is None or And(one, isin(desym(p.protocol_name_list).at(I(0)), cfg.alpn))
        ok_t = And(*[v is None or Or(*[T(v) == int(o) for o in l]) for _, v, l in types])
        if e is not None:
            prove('an answer is refused with an alert', is_alert(e, 'IllegalParameter', 'UnsupportedCertificate'), exc_name(e))
            prove('an answer is refused for a reason', Not(And(ok_f, ok_p, ok_t)))
            prove('the connection has not moved', state(c) == 'ClientWaitEncryptedExtensions')
            cover('refused')
            return
        prove('the client goes on with the certificate', state(c) == 'ClientWaitCertCr', state(c))
        prove('the fragment length is the one configured', ok_f)
        prove('exactly one protocol is selected', one)
        prove('the protocol was offered', ok_p)
        prove('the certificate types were offered', ok_t)
        n = c.nconfig
        prove('the fragment length is recorded', T(n.max_fragment_length) == (T(f.octets) if f is not None else 16384))
        if p is None:
            prove('no protocol is recorded', n.alpn is None)
        else:
            prove('the protocol is recorded', T(n.alpn) == T(desym(p.protocol_name_list).at(I(0))))
        for (_, v, l), got in zip(types, (n.client_certificate_type, n.server_certificate_type), strict=True):
            prove('the certificate type is recorded', T(got) == (T(v) if v is not None else 0), f'{got}')
        hb = x.get(E.HEARTBEAT)
        if hb is None:
            prove('no heartbeat without the extension', n.can_send_heartbeat is False and n.can_echo_heartbeat is False)
        else:
            prove('heartbeats are sent only when the server allows it', (T(hb.mode) == 1) == cond(n.can_send_heartbeat))
            prove('heartbeats are answered as configured', n.can_echo_heartbeat == cfg.can_echo_heartbeat)
        prove('suite and group stay', T(n.cipher_suite) == 0x1301 and T(n.key_exchange) == 29)
        prove('nothing is sent', not of('sent'))
        cover('accepted')
    return f


for _h in HOSTS:
    TASKS.append(Task(f'the hello, for {_h or "no name"}', start(_h, False)))
for _v in ({'alpn'}, {'trust'}, {'own', 'heartbeat'}):
    TASKS.append(Task(f'the hello: {" ".join(sorted(_v))}', start('server.example', False, _v), cost=2))
TASKS.append(Task('the hello after a retry', start('server.example', True)))
for _s in (False, True):
    TASKS.append(Task(f'a server hello{" after a retry" if _s else ""}', hello(_s), cost=5))
for _w in ('any', 'few'):
    TASKS.append(Task(f'a hello retry request, {_w} suites', retry(_w), cost=5))
for _v in ({'fragments'}, {'alpn'}, {'types'}, {'heartbeat'}, {'fragments', 'alpn', 'heartbeat'}):
    TASKS.append(Task(f'encrypted extensions: {" ".join(sorted(_v))}', encrypted(_v)))
