"""C14: what the live server selects, against the order of its configuration; hellos with arbitrary offers."""
from oracle.run import case, Fail
from oracle import tls, live, pki

conf, conn, iana = tls.siotls()
KEYS = {'rsa': [0x0804, 0x0805, 0x0806, 0x0401, 0x0501, 0x0601], 'p256': [0x0403], 'p384': [0x0503], 'p521': [0x0603],
        'ed25519': [0x0807], 'ed448': [0x0808]}
ALGS = sorted(set().union(*KEYS.values()))
GREASE = [0x0a0a, 0x7a7a, 0xfafa]
GROUPS = [29, 23, 24, 25, 30, 256]
PROTOS = ['http/1.1', 'h2', 'imap', 'irc', 'ftp']
NO = {'versions': 70, 'missing': 109, 'common': 40, 'types': 43, 'alpn': 120}


def need(x, what):
    if not x:
        raise Fail(what)


def some(rng, l, least=1):
    return rng.sample(l, rng.randrange(least, len(l) + 1))


def offers(o):
    r = o.rng
    while True:
        kind = r.choice(list(KEYS))
        d = dict(kind=kind, material=r.choice(['x509', 'x509', 'raw', 'both']), suites=some(r, live.SUITES + GREASE[:1]),
                 ours=some(r, live.SUITES), groups=some(r, GROUPS[:5] + GREASE[:2]), our_groups=some(r, GROUPS[:5]),
                 algs=some(r, ALGS + GREASE[:1] + [0x0809]), our_algs=some(r, ALGS + [0x0809]), versions=r.choice([[0x0304]] * 6 + [[0x0303], [0x7f1c, 0x0304], [0x0303, 0x0304]]),
                 drop=r.choice([[]] * 9 + [[43], [10], [13], [51], [10, 13]]), types=r.choice([None, None, [0], [2], [0, 2], [2, 0], [2, 3], [1]]),
                 protos=r.choice([None, None, some(r, PROTOS)]), our_protos=r.choice([[], some(r, PROTOS)]),
                 mfl=r.choice([None, None, 1, 2, 3, 4]), hb=r.choice([None, 1, 2]), echo=r.randrange(2), bad_share=r.choice([0] * 9 + [1]),
                 session=r.choice(['', '07', 'aa' * 32]))
        if r.randrange(2):
            # make the rest compatible, so that one choice is looked at
            d.update(our_algs=ALGS[:], algs=some(r, ALGS) if r.randrange(2) else r.sample(ALGS, len(ALGS)))
            r.shuffle(d['our_algs'])
        d['shares'] = some(r, [g for g in d['groups'] if g in GROUPS], 0) if any(g in GROUPS for g in d['groups']) else []
        yield d


@case(offers)
def selection(kind, material, suites, ours, groups, our_groups, algs, our_algs, versions, drop, types, protos, our_protos, mfl, hb,
              echo, bad_share, shares, session):
    """one hello, any configuration"""
    c, k = pki.leaf(kind=kind)
    d = dict(private_key=k, cipher_suites=live.suites(ours), key_exchanges=live.groups(our_groups), signature_algorithms=live.algs(our_algs),
             can_echo_heartbeat=bool(echo), alpn=[next(m for m in iana.ALPNProtocol if m.value == x) for x in our_protos])
    if material != 'raw':
        d['certificate_chain'] = [c, pki.ca()[0]]
    if material != 'x509':
        d['public_key'] = k.public_key()
    n = conn.TLSConnection(conf.TLSConfiguration('server', **d))
    n.initiate_connection()
    es = []
    if types is not None:
        es.append((20, tls.vec(1, bytes(types))))
    if protos is not None:
        es.append((16, tls.vec(2, b''.join(tls.vec(1, x.encode()) for x in protos))))
    if mfl:
        es.append((1, bytes([mfl])))
    if hb:
        es.append((15, bytes([hb])))
    p = tls.Client(suites=suites, groups=groups, shares=shares, algs=algs, versions=versions, drop=drop, extra=es, session=bytes.fromhex(session))
    first = lambda a, b: next((x for x in a if x in b), None)  # noqa: E731
    suite, group = first(ours, suites), first(our_groups, groups)
    alg = first(our_algs, [a for a in algs if a in KEYS[kind]])
    typ = first([t for t, m in ((0, material != 'raw'), (2, material != 'x509')) if m], types if types is not None else [0])
    proto = first(our_protos, protos) if protos is not None and our_protos else None
    bad = set()
    if 43 in drop or 0x0304 not in versions:
        bad.add(70)
    if 10 in drop or 13 in drop:
        bad.add(109)
    if suite is None or 10 not in drop and group is None or 13 not in drop and alg is None:
        bad.add(40)
    retry = not bad and (51 in drop or group not in shares)
    if not retry:
        if typ is None:
            bad.add(43)
        if protos is not None and our_protos and proto is None:
            bad.add(120)
        if bad_share and group in shares and 51 not in drop and not bad:
            p.shares[group].share = bytes(len(p.shares[group].share))
            bad.add(40)
            bad.add(47)
    e = tls.receive(n, p.hello())
    p.feed(n.data_to_send())
    if bad:
        need(e is not None and tls.state(n) == 'Failed', f'a hello with {sorted(bad)} to answer is accepted')
        need(p.alerts()[-1:] and p.alerts()[-1][0] == 2 and p.alerts()[-1][1] in bad,
             f'the answer is {p.alerts()}, not one of {sorted(bad)}: {e!r}')
        return
    need(e is None, f'a hello that can be answered is refused: {e!r}')
    if retry:
        order = [m[0] if t == 22 else t for t, m in p.got]
        need(order == [2, 20] and hasattr(p, 'hrr'), f'a retry is not sent: {order}')
        need(int.from_bytes(p.hrr['e'][51], 'big') == group, 'the retry does not name the group selected')
        need(p.hrr['suite'] == suite and p.hrr['e'][43] == b'\3\4' and p.hrr['session'] == p.session, 'the retry is not for what was selected')
        need(set(p.hrr['e']) == {43, 51}, 'the retry has other extensions')
        p.drop.discard(51)
        p.shares = {group: tls.Share(group)}
        if types is not None and typ is None or protos is not None and our_protos and proto is None:
            return
        e = tls.receive(n, p.hello())
        p.feed(n.data_to_send())
        if typ is None:
            return
        need(e is None, f'a second hello that can be answered is refused: {e!r}')
    else:
        need(not hasattr(p, 'hrr'), 'a retry is asked for though there is a share')
    need(p.done, 'the flight is not whole')
    need(p.suite == suite, f'the suite selected is {p.suite:04x}, not {suite:04x}')
    need(p.group == group, f'the group selected is {p.group}, not {group}')
    need(p.sh['session'] == p.session and p.sh['e'][43] == b'\3\4' and set(p.sh['e']) == {43, 51}, 'the hello is not for what was selected')
    need(p.cv[0] == alg, f'the algorithm selected is {p.cv[0]:04x}, not {alg:04x}')
    need(p.certs[0][0] == (pki.der(c) if typ == 0 else pki.spki(k.public_key())), 'the certificate is not of the type selected')
    want = {}
    if types is not None:
        want[20] = bytes([typ])
    if proto is not None:
        want[16] = tls.vec(2, tls.vec(1, proto.encode()))
    if mfl:
        want[1] = bytes([mfl])
    if hb:
        want[15] = bytes([1 if echo else 2])
    need(p.ee == want, f'the encrypted extensions are {p.ee}, not {want}')
    q = n.nconfig
    need(q.cipher_suite == suite and q.key_exchange == group and q.server_certificate_type == typ, 'what is recorded is not what was selected')
    need(bool(q.can_send_heartbeat) == (hb == 1), 'heartbeats are sent to a client that does not allow it, or not to one that does')
    need((q.max_fragment_length) == (2 ** (8 + mfl) if mfl else 16384), 'the fragment length recorded is not the one agreed to')
