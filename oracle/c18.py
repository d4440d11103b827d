"""C18: the key log."""
import importlib
import logging
from oracle.run import case, Fail
from oracle import tls, live
from oracle.c08 import size, need, ciphers

logger = importlib.import_module('siotls').key_logger
OPTIONAL = {'EXPORTER_SECRET', 'EARLY_EXPORTER_SECRET'}


class Log(logging.Handler):
    def __enter__(self):
        self.lines = []
        self.level0 = logger.level
        logging.disable(logging.NOTSET)
        logger.addHandler(self)
        logger.setLevel(logging.DEBUG)
        return self

    def __exit__(self, *a):
        logging.disable(logging.CRITICAL)
        logger.removeHandler(self)
        logger.setLevel(self.level0)

    def emit(self, record):
        self.lines.append(record.getMessage())


def same(lines, want, random, what):
    """want: {label: secret}"""
    seen = {}
    for l in lines:
        parts = l.split(' ')
        need(len(parts) == 3, f'{what}: not a key log line: {l!r}')
        need(parts[0] in want, f'{what}: unexpected label {parts[0]}')
        need(parts[0] not in seen, f'{what}: {parts[0]} is written twice')
        seen[parts[0]] = 1
        need(parts[1].lower() == random.hex(), f'{what}: {parts[0]} is identified by {parts[1]}, not by the random of the client')
        need(parts[2].lower() == want[parts[0]].hex(), f'{what}: {parts[0]} has another value')
    need(set(want) - OPTIONAL <= set(seen), f'{what}: {sorted(set(want) - OPTIONAL - set(seen))} not written')


def logs(o):
    while True:
        for n in tls.SUITES:
            for side in ('client', 'server'):
                for on in (True, False):
                    for early in (False, True):
                        yield dict(n=n, side=side, on=on, early=early, random=o.bytes(32).hex(),
                                   th=[o.bytes(size(n)).hex() for _ in range(3)], shared=o.bytes(32).hex())


@case(logs)
def suite_log(n, side, on, early, random, th, shared):
    random, shared = bytes.fromhex(random), bytes.fromhex(shared)
    a, b, d = map(bytes.fromhex, th)
    with Log() as log:
        c = ciphers.TLSCipherSuite[live.iana.CipherSuites(n)](side, random, log_keys=on)
        sch = tls.Schedule(n)
        if early:
            c.derive_early_secrets(shared, 'external', a)
            e = sch.early = tls.extract(sch.h, bytes(sch.n), shared)
            w = {'CLIENT_EARLY_TRAFFIC_SECRET': tls.derive(sch.h, e, b'c e traffic', a),
                 'EARLY_EXPORTER_SECRET': tls.derive(sch.h, e, b'e exp master', a)}
        else:
            c.skip_early_secrets()
            w = {}
        check(log, on, w, random, 'early')
        c.derive_handshake_secrets(shared, b)
        sch.handshake(shared, b)
        check(log, on, {'CLIENT_HANDSHAKE_TRAFFIC_SECRET': sch.c_hs, 'SERVER_HANDSHAKE_TRAFFIC_SECRET': sch.s_hs}, random,
              'handshake')
        c.encrypt(b'x', b'h')
        c.sign_finish(a)
        try:
            c.verify_finish(a, b)
        except ValueError:
            pass
        check(log, on, {}, random, 'use of the keys')
        sch.application(b)
        c.derive_master_secrets(b, d)
        check(log, on, {'CLIENT_TRAFFIC_SECRET_0': sch.c_ap, 'SERVER_TRAFFIC_SECRET_0': sch.s_ap,
                        'EXPORTER_SECRET': sch.exporter}, random, 'application')


def check(log, on, want, random, what):
    if on:
        same(log.lines, want, random, what)
    else:
        need(not log.lines, f'{what}: key logging is disabled and {log.lines[:1]} is written')
    log.lines.clear()


def lives(o):
    while True:
        for n in tls.SUITES:
            for side in ('client', 'server'):
                for on in (True, False):
                    for hrr in (False, True):
                        yield dict(n=n, side=side, on=on, hrr=hrr)


@case(lives)
def live_log(n, side, on, hrr):
    with Log() as log:
        c, p = live.connected(side, suite=n, hrr=hrr, cfg=dict(log_keys=on))
        random = p.random if side == 'server' else p.ch['random']
        s = p.sch
        check(log, on, {'CLIENT_HANDSHAKE_TRAFFIC_SECRET': s.c_hs, 'SERVER_HANDSHAKE_TRAFFIC_SECRET': s.s_hs,
                        'CLIENT_TRAFFIC_SECRET_0': s.c_ap, 'SERVER_TRAFFIC_SECRET_0': s.s_ap, 'EXPORTER_SECRET': s.exporter},
              random, 'handshake')
        c.send_data(b'data')
        tls.receive(c, p.send(23, b'data'))
        c.close_sending_end()
        tls.receive(c, p.send(21, b'\1\0'))
        check(log, on, {}, random, 'data and close')
