"""C11: a server proves its own key and only completes on a verified client finished."""
from contracts.serverflow import *
from contracts import c10

TASKS = []
FLIGHT = ['ServerHello', 'ChangeCipherSpec', 'EncryptedExtensions', 'Certificate', 'CertificateVerify', 'Finished']


def names(l):
    return [type(m).__name__ for m in l]


def sent():
    return of('sent')


def flight(c, h, kind, material, first):
    """what the server has sent, from the hello to its finished; the digest up to its finished"""
    from siotls import iana
    l = sent()
    want = FLIGHT if first else [n for n in FLIGHT if n != 'ChangeCipherSpec']
    got = names([s[1] for s in l])
    prove('the flight is the one of the protocol, in order', got == want, f'{got}')
    if got != want:
        return None
    at = dict(zip(got, l, strict=True))
    order = [e[0] for e in events()]
    where = {n: events().index(s) for n, s in at.items()}
    hs = of('handshake_keys')
    prove('the handshake keys are installed once', len(hs) == 1)
    r = of('resume')
    prove('they come from the shared key and the transcript up to the hello', len(r) == 1 and r[0][4] == 1 and And(
        beq(hs[0][1], r[0][5]), beq(hs[0][2], digest_at(at['ServerHello'][4]))))
    prove('they are those of the suite in use', hs[0][3] is c._cipher)
    i = order.index('handshake_keys')
    prove('they are installed after the hello and before what is encrypted',
          where['ServerHello'] < i < where['EncryptedExtensions'])
    prove('the early secrets are skipped before', 'skip_early' in order and order.index('skip_early') < i)
    # the certificate
    entries = list(at['Certificate'][1].certificate_list)
    raw = int(c.nconfig.server_certificate_type) == 2
    prove('the type is one there is material for', material == 'both' or raw == (material == 'raw'))
    if raw:
        prove('the raw key presented is that of the configuration',
              len(entries) == 1 and entries[0].public_key is c.config.public_key)
        cover('raw key')
    else:
        chain = c.config.certificate_chain
        prove('the chain presented is that of the configuration', len(entries) == len(chain) and all(
            e.certificate is k for e, k in zip(entries, chain, strict=False)))
        cover('chain')
    prove('the certificate has no context', beq(at['Certificate'][1].certificate_request_context, b''))
    # the signature
    sign = of('sign')
    prove('one signature is made', len(sign) == 1)
    _, number, key, data, value = sign[0]
    prove('it is by the private key of the configuration', key is c.config.private_key)
    prove('it covers the context of servers and the transcript up to the certificate',
          beq(data, concat(CONTEXT, digest_at(at['Certificate'][4]))))
    cv = at['CertificateVerify'][1]
    prove('the signature sent is the one made, with its algorithm', And(beq(cv.signature, value), T(cv.algorithm) == number))
    prove('the algorithm is one of the key', number in ALGORITHMS[kind])
    prove('the client supports the algorithm', isin(cv.algorithm, h.extensions[iana.ExtensionType.SIGNATURE_ALGORITHMS]
                                                    .supported_signature_algorithms))
    # the finished
    fin = of('sign_finish')
    prove('one finished value is made', len(fin) == 1)
    prove('it covers the transcript up to the certificate verify, by the suite in use', And(
        beq(fin[0][1], digest_at(at['CertificateVerify'][4])), fin[0][3] is c._cipher))
    prove('the finished sent is the one made', beq(at['Finished'][1].verify_data, fin[0][2]))
    prove('every message is sent by the suite in use', all(s[3] is c._cipher for s in l))
    prove('the server waits for the finished of the client', state(c) == 'ServerWaitFinished')
    prove('no application key is installed', not of('application_keys'))
    prove('no finished value was verified', not of('verify_finish'))
    return digest_at(at['Finished'][4])


def finish(c, th):
    """the finished of the client, or whatever is sent for it"""
    from siotls import iana
    cipher = c._cipher
    events().clear()
    m = Content_(content_type=iana.ContentType.HANDSHAKE, msg_type=iana.HandshakeType.FINISHED, verify_data=bvar('finished'))
    before = c._state
    e = receive(c, m)
    v = of('verify_finish')
    prove('the finished value is verified once', len(v) == 1)
    prove('by the suite in use, over the transcript up to the finished of the server', And(beq(v[0][1], th), v[0][4] is cipher))
    prove('the value verified is the one received', beq(v[0][2], bvar('finished')))
    prove('nothing is sent on a finished', not sent())
    k = of('application_keys')
    if v[0][3] != 1:
        prove('a wrong finished value fails with a decrypt error', is_alert(e, 'DecryptError'), exc_name(e))
        prove('a wrong finished value changes nothing', c._state is before and not k)
        cover('wrong')
        return
    prove('a right finished value connects', e is None and state(c) == 'Connected', exc_name(e))
    prove('the application keys are installed once, by the suite in use', len(k) == 1 and k[0][3] is cipher)
    prove('they come from the transcripts up to both finished', And(beq(k[0][1], th), beq(k[0][2], c._transcript.digest())))
    prove('they are installed after the verification', position('verify_finish') < position('application_keys'))
    cover('connected')


def whole(kind, material, retry, vary=(), ocsp=False):
    def f():
        from siotls import iana
        c = server(set(vary), kind, material, ocsp)
        vary1 = set(vary) | ({'server types'} if material != 'x509' else set())
        h = hello(vary1)
        if retry:
            shares = h.extensions.pop(iana.ExtensionType.KEY_SHARE)
            e = receive(c, h)
            if e is not None:
                prove('a hello refused sends nothing', not sent())
                return
            got = names([s[1] for s in sent()])
            prove('a retry is asked for', got == ['HelloRetryRequest', 'ChangeCipherSpec'], f'{got}')
            d = of('dance')
            prove('the transcript is restarted once, before the retry is sent', len(d) == 1 and
                  events().index(d[0]) < events().index(sent()[0]))
            events().clear()
            h.extensions[iana.ExtensionType.KEY_SHARE] = shares
        e = receive(c, h)
        if e is not None:
            prove('a hello refused sends nothing', not sent() and not of('sign'))
            cover('refused')
            return
        if names([s[1] for s in sent()])[:1] == ['HelloRetryRequest']:
            prove('one retry at most', not retry)
            return
        th = flight(c, h, kind, material, not retry)
        if th is not None:
            finish(c, th)
    return f


def second(vary):
    """any second hello"""
    def f():
        from siotls import iana
        E = iana.ExtensionType
        c = server(vary)
        h = hello(vary)
        h.extensions.pop(E.KEY_SHARE, None)
        e = receive(c, h)
        if e is not None:
            return
        before = c._state
        n = c.nconfig
        was = dict(suite=n.cipher_suite, group=n.key_exchange, cipher=c._cipher,
                   algorithm=c._signature.iana_id)
        events().clear()
        h2 = hello(vary | {'shares'}, 'second')
        e = receive(c, h2)
        same = beq(h2.random, bvar('first random', 32))
        x = h2.extensions
        if e is not None:
            prove('a second hello is refused with an alert', type(e).__module__ == S.ALERTS, exc_name(e))
            prove('a second hello refused sends nothing', not sent() and not of('sign'))
            prove('a second hello refused does not advance', c._state is before)
            cover(type(e).__name__)
            return
        cover('accepted')
        prove('the random of the second hello is that of the first', same)
        prove('the suite of the second hello is that of the first', And(
            isin(was['suite'], h2.cipher_suites), T(n.cipher_suite) == T(was['suite']), c._cipher is was['cipher']))
        prove('the group of the second hello is that of the first', And(
            T(n.key_exchange) == T(was['group']), isin(was['group'], x[E.SUPPORTED_GROUPS].named_group_list)))
        prove('the algorithm of the second hello is that of the first', And(
            T(c._signature.iana_id) == T(was['algorithm']),
            isin(was['algorithm'], x[E.SIGNATURE_ALGORITHMS].supported_signature_algorithms)))
        got = names([s[1] for s in sent()])
        prove('no second retry', 'HelloRetryRequest' not in got and got[:1] == ['ServerHello'], f'{got}')
        r = of('resume')
        prove('the share is one of the second hello, for the group', len(r) == 1 and And(
            r[0][4] == 1, T(was['group']) == r[0][1], beq(r[0][3], bvar('second share', idx=(T(was['group']),)))))
        prove('the server waits for the finished of the client', state(c) == 'ServerWaitFinished')
    return f


def stapled():
    """the status of the certificate, from the service"""
    def f():
        from siotls import iana
        E = iana.ExtensionType
        c = server({'status'}, ocsp=choose([True, False]))
        h = hello({'status'})
        e = receive(c, h)
        if e is not None:
            prove('a hello is not refused for a status', of('resume') and not of('resume')[0][4], exc_name(e))
            return
        x = h.extensions.get(E.STATUS_REQUEST)
        asked = x is not None and branch(T(x.status_type) == 1)
        if names([s[1] for s in sent()])[:1] == ['HelloRetryRequest']:
            return
        entries = [m for m in (s[1] for s in sent()) if type(m).__name__ == 'Certificate'][0].certificate_list
        chain = c.config.certificate_chain
        got = [k.extensions[E.STATUS_REQUEST] if E.STATUS_REQUEST in k.extensions else None for k in entries]
        v = of('validate')
        if not (asked and c.ocsp_service is not None and len(chain) > 1):
            prove('no status is sent unless asked for', not any(got))
            cover('no status')
            return
        prove('the status is that of the leaf', not any(got[1:]))
        ok = of('cache')
        if got[0] is None:
            prove('a status is sent if it is valid', not ok)
            prove('a status that is not valid is forgotten', len(of('uncache')) == 1)
            cover('bad status')
        else:
            prove('a status sent was validated with the key of the issuer', len(v) == 1 and v[0][1] is chain[1] and
                  v[0][2] == ('request', 'leaf', 'issuer') and v[0][3] is got[0].ocsp_response and len(ok) == 1)
            prove('a status sent is cached until it expires', ok[0][2] == v[0][2] and ok[0][3] is v[0][3])
            cover('status')
    return f


for _k in ALGORITHMS:
    for _m in ('x509', 'raw', 'both'):
        for _r in (0, 1):
            TASKS.append(Task(f"{_k}, {_m}{', after a retry' if _r else ''}", whole(_k, _m, _r, ('algorithms',)), cost=5))
TASKS.append(Task('any suite and group', whole('ed25519', 'x509', 0, ('suites', 'groups', 'shares')), cost=5))
TASKS.append(Task('any optional answer', whole('ed25519', 'x509', 0, ('alpn', 'heartbeat', 'fragments')), cost=5))
TASKS.append(Task('a status asked for', stapled()))
for _v in ('suites', 'groups', 'algorithms', 'versions'):
    TASKS.append(Task(f'any second hello, {_v}', second({_v}), cost=5))
for _s in S.SERVER:
    TASKS.append(Task(f'{_s}: any other message', stray(_s)))
for _n in c10.SCHEMES:
    TASKS.append(Task(f'signature {_n:04x}', c10.signatures(_n)))
