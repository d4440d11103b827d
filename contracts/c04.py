"""C04: decoding arbitrary bytes ends in a message, a TLS alert or the TLS buffer error."""
from pyvc.harness import *
from pyvc.harness import Task
from pyvc import models
from contracts import wire, c02, c03
from contracts.c03 import TABLE, CH, SH, EE, CR, CE, HRR, NST, X, handshake_type
from contracts.c02 import HS, contents, sides, either_side, iana
from contracts.wire import u, vec

TASKS = []


def task(name, **o):
    def deco(f):
        TASKS.append(Task(name, f, **o))
        return f
    return deco


def allowed(e):
    from siotls.contents import alerts
    from siotls.serial import TLSBufferError
    return isinstance(e, alerts.TLSFatalAlert) or isinstance(e, TLSBufferError)


def outcome(tag, cls, got, e, s, end, whole=True):
    """end: where the bytes given, or announced by the enclosing field, end"""
    if e is not None:
        prove(f'{tag}: only TLS alerts and buffer errors', allowed(e), f'{exc_name(e)} {e}')
    else:
        prove(f'{tag}: ends in a message', got is not None and isinstance(got, cls), f'{type(got).__name__}')
        if whole:
            prove(f'{tag}: every announced byte was consumed', T(s.tell()) == nz(end))
    prove(f'{tag}: nothing is consumed outside', T(s.tell()) <= nz(end))


def extension(name):
    number, messages, _ = TABLE[name]

    def f():
        import siotls.serial as ser
        ghost()['termination'] = True
        m = choose(messages)
        body, tail = bvar('body'), bvar('tail')
        assume(nz(blen(body)) < 65536)
        s = ser.SerialIO(concat(u(2, number), wire.item(2, body), tail))
        # a certificate keeps the configurations for itself
        kw = dict(config=None, nconfig=None) if m in (CH, SH, HRR, EE) else {}
        got, e = attempt(X().Extension.parse, s, handshake_type=handshake_type(m), **kw)
        outcome(name, X().Extension, got, e, s, 4 + nz(blen(body)))
        cover(name)
    return f


# more paths than a check on every change can afford: proved in the thorough tier only
LONG = {'KeyShareRequest': dict(cost=100), 'client_hello': dict(tier='thorough', seconds=2900)}
for _n in TABLE:
    TASKS.append(Task(_n, extension(_n), **LONG.get(_n, {})))


@task('extension')
def t_any_extension():
    """any extension type in any message, and truncated ones"""
    import siotls.serial as ser
    ghost()['termination'] = True
    m = choose([CH, SH, EE, CR, CE, HRR, NST])
    data = bvar('data')
    if choose([0, 1]):
        # no room for the header
        assume(nz(blen(data)) < 4)
        s = ser.SerialIO(data)
    else:
        registered = {n: ms for n, ms, _ in TABLE.values()}
        t = sint('type', 0, 65535)
        allowed_here = {n for n, ms, _ in TABLE.values() if m in ms}
        for n in allowed_here:
            assume(T(t) != n)
        s = ser.SerialIO(concat(u(2, t), vec(2, data)))
    got, e = attempt(X().Extension.parse, s, handshake_type=handshake_type(m))
    outcome('extension', X().Extension, got, e, s, blen(s.getvalue()))
    cover('extension')


# -- messages: any bytes, extensions by their contract ---------------------------------------------------

REGISTERED = {1: 'client_hello', 2: 'server_hello', 4: 'new_session_ticket', 5: 'end_of_early_data',
              8: 'encrypted_extensions', 11: 'certificate', 13: 'certificate_request', 15: 'certificate_verify',
              20: 'finished', 24: 'key_update'}


def handshake(number, tag):
    def f():
        import siotls.serial as ser
        ghost()['termination'] = True
        config, nconfig = sides() if number == 11 else either_side()
        wire.abstract_extensions(None, refuse=True)
        if number == 11:
            mine = 'client' if config.other_side == 'client' else 'server'
            i = iana()
            ct = choose([None, *i.CertificateType])
            setattr(nconfig, f'{mine}_certificate_type', ct)
            ghost()['entries_any'] = True
        body, tail = bvar('body'), bvar('tail')
        assume(nz(blen(body)) < 1 << 24)
        s = ser.SerialIO(concat(u(1, number), wire.item(3, body), tail))
        got, e = attempt(contents().Handshake.parse, s, config=config, nconfig=nconfig)
        outcome(tag, contents().Handshake, got, e, s, 4 + nz(blen(body)))
        cover(tag)
    return f


for _n, _t in REGISTERED.items():
    TASKS.append(Task(_t, handshake(_n, _t), **LONG.get(_t, dict(cost=5))))


@task('handshake')
def t_handshake():
    """any handshake type, truncated messages"""
    import siotls.serial as ser
    config, nconfig = either_side()
    data = bvar('data')
    if choose([0, 1]):
        assume(nz(blen(data)) < 4)
        s = ser.SerialIO(data)
    else:
        t = sint('msg_type', 0, 255)
        for n in REGISTERED:
            assume(T(t) != n)
        s = ser.SerialIO(concat(u(1, t), vec(3, data)))
    got, e = attempt(contents().Handshake.parse, s, config=config, nconfig=nconfig)
    outcome('handshake', contents().Handshake, got, e, s, blen(s.getvalue()))
    cover('handshake')


@task('handshake truncated')
def t_truncated():
    """a message announcing more than there is"""
    import siotls.serial as ser
    ghost()['termination'] = True
    config, nconfig = either_side()
    number = choose([8, 15, 20, 2])
    wire.abstract_extensions(None, refuse=True)
    body = bvar('body')
    n = sint('announced', 0, (1 << 24) - 1)
    assume(T(n) > nz(blen(body)))
    s = ser.SerialIO(concat(u(1, number), u(3, n), body))
    got, e = attempt(contents().Handshake.parse, s, config=config, nconfig=nconfig)
    outcome('truncated', contents().Handshake, got, e, s, blen(s.getvalue()), whole=False)
    prove('truncated: refused', e is not None)


@task('content')
def t_content():
    """any content type but handshakes, any bytes"""
    import siotls.serial as ser
    ghost()['termination'] = True
    config, nconfig = either_side()
    data = bvar('data')
    t = sint('content_type', 0, 255)
    assume(T(t) != 22)
    parser, e = attempt(contents().Content.get_parser, t)
    if e is not None:
        prove('content: only TLS alerts', allowed(e), exc_name(e))
        prove('content: only unknown types are refused', And(*[T(t) != k for k in (20, 21, 23, 24)]))
        return
    s = ser.SerialIO(data)
    got, e = attempt(parser.parse, s, config=config, nconfig=nconfig)
    outcome('content', contents().Content, got, e, s, blen(data), whole=False)
    cover('content')


@task('certificate_entry')
def t_entry():
    import siotls.serial as ser
    ghost()['termination'] = True
    wire.abstract_extensions(None, refuse=True)
    cls, attr, make, enc = choose(c02.entry_classes())
    data = bvar('data')
    s = ser.SerialIO(data)
    got, e = attempt(cls.parse, s)
    outcome('certificate entry', cls, got, e, s, blen(data), whole=False)
    cover('certificate entry')


wire.install()
