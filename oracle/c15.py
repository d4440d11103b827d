"""C15: the hello of a live client against its configuration, and any answer of the server to it."""
import ipaddress
import os
from oracle.run import case, Fail
from oracle import tls, live, pki

conf, conn, iana = tls.siotls()
GROUPS = [29, 23, 24, 25, 30, 256]
ALGS = [0x0804, 0x0805, 0x0806, 0x0403, 0x0503, 0x0603, 0x0807, 0x0808, 0x0809]
PROTOS = ['http/1.1', 'h2', 'imap', 'irc', 'ftp']
HOSTS = {None: None, 'example.com': b'example.com', 'localhost': b'localhost', '1.2.3': b'1.2.3', '10.0.0.1': None, '::1': None,
         '2001:db8::7': None, 'a-b.c-d.example': b'a-b.c-d.example', 'b\u00fccher.example': b'xn--bcher-kva.example', '256.1.1.1': b'256.1.1.1'}


def need(x, what):
    if not x:
        raise Fail(what)


def some(r, l, least=1):
    return r.sample(l, r.randrange(least, len(l) + 1))


def configs(r):
    return dict(suites=some(r, live.SUITES), groups=some(r, GROUPS[:5]) if r.randrange(9) else some(r, GROUPS), algs=some(r, ALGS),
                protos=r.choice([[], some(r, PROTOS)]), host=r.choice(list(HOSTS)), trust=r.choice(['', 'store', 'keys', 'both']),
                own=r.choice(['', 'x509', 'raw', 'both']), echo=r.randrange(2))


def make(suites, groups, algs, protos, host, trust, own, echo):
    c, k = pki.leaf()
    d = dict(cipher_suites=live.suites(suites), key_exchanges=live.groups(groups), signature_algorithms=live.algs(algs),
             alpn=[next(m for m in iana.ALPNProtocol if m.value == x) for x in protos], can_echo_heartbeat=bool(echo))
    if trust in ('store', 'both'):
        d['trust_store'] = live.store()
    if trust in ('keys', 'both'):
        d['trusted_public_keys'] = [k.public_key()]
    if own:
        d['private_key'] = k
    if own in ('x509', 'both'):
        d['certificate_chain'] = [c]
    if own in ('raw', 'both'):
        d['public_key'] = k.public_key()
    return conn.TLSConnection(conf.TLSConfiguration('client', **d), server_hostname=host)


def initiate(n):
    try:
        n.initiate_connection()
    except Exception as e:  # noqa: BLE001
        raise Fail(f'no hello is made: {e!r}') from e


def types(x509, raw):
    return [t for t, m in ((0, x509), (2, raw)) if m] or [0]


def look(ch, suites, groups, algs, protos, host, trust, own, echo, cookie=None, first=None):
    e = ch['e']
    need(ch['suites'] == suites, f'the suites offered are {ch["suites"]}, not {suites}')
    need(e.get(43) == b'\2\3\4', f'the versions offered are {e.get(43)}')
    need(tls.nums(e[10][2:]) == groups, f'the groups offered are {tls.nums(e[10][2:])}, not {groups}')
    need(tls.nums(e[13][2:]) == algs, f'the algorithms offered are {tls.nums(e[13][2:])}, not {algs}')
    want = tls.vec(2, b''.join(tls.vec(1, p.encode()) for p in protos)) if protos else None
    need(e.get(16) == want, f'the protocols offered are {e.get(16)}, not {want}')
    for t, w in ((19, types(own in ('x509', 'both'), own in ('raw', 'both'))), (20, types(trust in ('store', 'both'), trust in ('keys', 'both')))):
        got = list(e[t][1:]) if t in e else [0]
        need(got == w, f'the certificate types offered are {got}, not {w}')
    sni = HOSTS[host]
    want = tls.vec(2, b'\0' + tls.vec(2, sni)) if sni else None
    need(e.get(0) == want, f'the name sent is {e.get(0)}, not {want}')
    shares = tls.client_shares(e[51])
    need((first or groups[0]) in shares and set(shares) <= set(groups), f'shares are sent for {list(shares)}')
    for g, s in shares.items():
        need(len(s) == len(tls.Share(g).share), 'a share is of another size than its group')
    need(e.get(44) == (tls.vec(2, cookie) if cookie else None), f'the cookie sent is {e.get(44)}')


def starts(o):
    while True:
        yield configs(o.rng)


@case(starts)
def hello(**k):
    """the first hello of any configuration"""
    n = make(**k)
    initiate(n)
    p = tls.Server()
    p.feed(n.data_to_send())
    look(p.ch, **k)
    need(p.ch['random'] == n._client_unique, 'the random is not that of the connection')


def answers(o):
    r = o.rng
    while True:
        k = configs(r)
        k['groups'] = some(r, GROUPS[:5])
        k['host'] = r.choice(['example.com', '10.0.0.1'])
        other = [s for s in live.SUITES if s not in k['suites']] + [0x1399]
        hrr = r.choice([None, None, r.choice(k['groups'])])
        if hrr == k['groups'][0]:
            hrr = None
        yield dict(k=k, hrr=hrr, cookie=r.choice(['', '', 'c0', 'ab' * 20]), bad=r.choice(
            ['', '', '', 'suite', 'version', 'no version', 'group', 'no share', 'share', 'retry suite', 'retry version', 'retry no version',
             'retry group', 'retry no group', 'retry twice', 'other suite', 'mute']),
            suite=r.choice(k['suites']), other=r.choice(other), vers=r.choice([0x0303, 0x0302, 0x0300, 0x7f1c]), x=r.randrange(2 ** 16))


ALLOWED = {'suite': [47], 'version': [47, 70], 'no version': [70, 109], 'group': [47], 'no share': [109, 47], 'share': [47, 40],
           'retry suite': [47], 'retry version': [47, 70], 'retry no version': [70, 109], 'retry group': [47],
           'retry no group': [109, 47], 'retry twice': [10], 'other suite': [47]}


def message(p, suite, es, retry=False):
    m = tls.hs(2, b'\3\3' + (tls.HRR_RANDOM if retry else p.random) + tls.vec(1, p.ch['session']) + tls.u(2, suite) + b'\0'
               + tls.vec(2, b''.join(tls.ext(*e) for e in es)))
    return p.record(22, m)


def refused(n, p, e, alerts, what):
    p.feed(n.data_to_send())
    need(e is not None and tls.state(n) == 'Failed', f'{what} is accepted')
    need(p.alerts()[-1:] and p.alerts()[-1][0] == 2 and p.alerts()[-1][1] in alerts, f'{what} is answered by {p.alerts()[-1:]}: {e!r}')
    need(not (n.nconfig and n.nconfig.key_exchange), f'{what} leaves a group recorded')


@case(answers)
def answer(k, hrr, cookie, bad, suite, other, vers, x):
    """any hello of the server, with and without a retry"""
    cookie = bytes.fromhex(cookie)
    n = make(**k)
    initiate(n)
    p = tls.Server(suite=suite)
    p.feed(n.data_to_send())
    absent = [g for g in GROUPS + [257, 0x0a0a] if g not in k['groups']]
    v = (43, tls.u(2, 0x0304))
    wrong = (43, tls.u(2, vers))
    if bad.startswith('retry') and bad != 'retry twice':
        g = (51, tls.u(2, absent[x % len(absent)] if bad == 'retry group' else k['groups'][-1]))
        m = {'retry suite': (other, [v, g]), 'retry version': (suite, [wrong, g]), 'retry no version': (suite, [g]),
             'retry group': (suite, [v, g]), 'retry no group': (suite, [v])}[bad]
        h = len([1 for t, _ in p.got])
        refused(n, p, tls.receive(n, message(p, *m, retry=True)), ALLOWED[bad], bad)
        return
    if hrr is None and bad in ('retry twice', 'other suite'):
        return
    if hrr:
        es = [v, (51, tls.u(2, hrr))] + ([(44, tls.vec(2, cookie))] if cookie else [])
        e = tls.receive(n, p.retry(suite, hrr, es=es))
        need(e is None, f'a retry for {hrr} is refused: {e!r}')
        p.feed(n.data_to_send())
        c2 = p.ch
        need(suite in c2['suites'] and set(c2['suites']) <= set(k['suites']), 'the second hello has other suites')
        need(list(tls.client_shares(c2['e'][51])) == [hrr], f'the second hello has shares of {list(tls.client_shares(c2["e"][51]))}')
        need(c2['e'].get(44) == (tls.vec(2, cookie) if cookie else None), 'the second hello has not the cookie')
        need(tls.nums(c2['e'][13][2:]) == k['algs'], 'the second hello has other algorithms')
        if bad == 'retry twice':
            h = len(p.tr)
            refused(n, p, tls.receive(n, message(p, suite, es, retry=True)), ALLOWED[bad], bad)
            need(len(p.tr) == h, 'a second retry is answered with a hello')
            return
    g = hrr or k['groups'][0]
    good = tls.Share(g).share
    s = suite
    es = [v, (51, tls.u(2, g) + tls.vec(2, good))]
    if bad == 'suite':
        s = other
    elif bad == 'other suite':
        left = [a for a in k['suites'] if a != suite]
        if not left:
            return
        s = left[x % len(left)]
    elif bad == 'version':
        es[0] = wrong
    elif bad == 'no version':
        es = es[1:]
    elif bad == 'no share':
        es = es[:1]
    elif bad == 'group':
        o = [a for a in absent + [b for b in k['groups'] if b != g] if a in GROUPS]
        if not o:
            return
        o = o[x % len(o)]
        es[1] = (51, tls.u(2, o) + tls.vec(2, tls.Share(o).share))
    elif bad == 'share':
        es[1] = (51, tls.u(2, g) + tls.vec(2, [bytes(len(good)), good[:-1], good + b'\0', b'\1'][x % 4]))
    elif bad == 'mute':
        return
    if bad:
        refused(n, p, tls.receive(n, message(p, s, es)), ALLOWED[bad], bad)
        return
    e = tls.receive(n, p.hello(suite, g))
    need(e is None, f'a hello that can be accepted is refused: {e!r}')
    need(tls.state(n) == 'ClientWaitEncryptedExtensions', f'the client is in {tls.state(n)}')
    need(n.nconfig.cipher_suite == suite and n.nconfig.key_exchange == g, f'recorded are {n.nconfig.cipher_suite} and {n.nconfig.key_exchange}')
    e = tls.receive(n, p.encrypted())
    need(e is None, f'the client cannot read what the server protects: {e!r}')


def rest(o):
    r = o.rng
    while True:
        k = configs(r)
        k.update(groups=[29], suites=[r.choice(live.SUITES)], host='example.com')
        yield dict(k=k, protos=r.choice([None, None, r.sample(PROTOS, r.randrange(3)), k['protos'][:1], k['protos'][-1:]]),
                   mfl=r.choice([None, None, None, 1, 2, 3, 4]), ct=r.choice([None, None, 0, 2]), st=r.choice([None, None, 0, 2]),
                   hb=r.choice([None, 1, 2]))


@case(rest)
def encrypted(k, protos, mfl, ct, st, hb):
    """any encrypted extensions"""
    n = make(**k)
    initiate(n)
    p = tls.Server()
    p.feed(n.data_to_send())
    e = tls.receive(n, p.hello())
    if e:
        raise RuntimeError(repr(e))
    es = []
    if protos is not None:
        es.append((16, tls.vec(2, b''.join(tls.vec(1, q.encode()) for q in protos))))
    if mfl:
        es.append((1, bytes([mfl])))
    if ct is not None:
        es.append((19, bytes([ct])))
    if st is not None:
        es.append((20, bytes([st])))
    if hb:
        es.append((15, bytes([hb])))
    own, peer = types(k['own'] in ('x509', 'both'), k['own'] in ('raw', 'both')), types(k['trust'] in ('store', 'both'), k['trust'] in ('keys', 'both'))
    bad = bool(mfl) or ct is not None and ct not in own or st is not None and st not in peer or \
        protos is not None and (len(protos) != 1 or protos[0] not in k['protos'])
    # an explicit X.509 that was not configured, nor offered in so many words, may be refused
    may = ct == 0 and not k['own'] or st == 0 and not k['trust']
    e = tls.receive(n, p.encrypted(es))
    p.feed(n.data_to_send())
    if e is not None:
        need(bad or may, f'encrypted extensions that were offered are refused: {e!r}')
        need(p.alerts()[-1:] and p.alerts()[-1][0] == 2 and p.alerts()[-1][1] in (47, 43, 110, 50, 120), f'answered by {p.alerts()[-1:]}: {e!r}')
        return
    need(not bad, 'encrypted extensions that were not offered are accepted')
    q = n.nconfig
    need(tls.state(n) == 'ClientWaitCertCr', f'the client is in {tls.state(n)}')
    need(q.alpn == (protos[0] if protos else None), f'the protocol recorded is {q.alpn}')
    need(q.client_certificate_type == (ct or 0) and q.server_certificate_type == (st or 0), 'the certificate types recorded are others')
    need(q.max_fragment_length == 16384, f'the fragment length recorded is {q.max_fragment_length}')
    need(bool(q.can_send_heartbeat) == (hb == 1) and bool(q.can_echo_heartbeat) == bool(hb and k['echo']), 'the heartbeat modes recorded are others')
