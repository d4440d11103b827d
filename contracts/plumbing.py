"""What surrounds the states of a connection: receiving, sending and closing, in every state.

The contracts put in the place of what receive_data calls:
- _read_next_content() returns nothing, or a content type and bytes, or raises an alert or another exception (C06);
- Content.get_parser(type).parse(stream) reads some of the bytes and returns a content, or raises an alert, a
  TLSBufferError or another exception (C04);
- state.process(content) returns or raises any of those, and may have moved the connection to any state."""
from contracts.states import *

STATES = CLIENT + SERVER + ['Connected', 'Closed', 'Failed']
HANDSHAKE = CLIENT + SERVER


def sides(name):
    return ['client'] if name.startswith('Client') else ['server'] if name.startswith('Server') else ['client', 'server']


class Cipher:
    __vc_ok__ = True
    tag_length = 16

    def __init__(self, keys, rekey):
        self.must_encrypt = self.must_decrypt = keys
        self.should_rekey = rekey

    def encrypt(self, data, header):
        shape, terms = sym.sig([data, header])
        return bvar(f'sealed{shape}', simp(nz(blen(data)) + 16), tuple(terms))


def enter_state(name, real_send=False, rekey=False):
    """a connection in that state, with what may be there"""
    side = choose(sides(name))
    c = connection(side, config(side))
    keys = name not in ('ClientStart', 'ServerStart', 'ServerWaitClientHello', 'ClientWaitServerHello') and \
        (True if name in ('Connected', 'Closed') or name in HANDSHAKE else choose([True, False]))
    c._cipher = Cipher(keys, rekey)
    if name not in ('ClientStart', 'ServerStart'):
        negotiated(c)
    if real_send:
        del c._send_content
    enter(c, name, **ARGS[name])
    if name == 'Closed':
        how = choose([(True, True), (True, False), (False, True), (False, False)])
        if not how[0]:
            c._state.can_send = False
        if not how[1]:
            c._state.can_receive = False
    c._application_data = rt.MODELS[bytearray](bvar('data not read yet'))
    c._output_data = rt.MODELS[bytearray](bvar('queued before'))
    return c, side


def flags(c):
    s = c._state
    return s.can_send, s.can_receive


def fatal(name=None):
    """one of the alerts that the code raises"""
    from siotls.contents import alerts
    return choose([alerts.DecodeError, alerts.UnexpectedMessage, alerts.BadRecordMac, alerts.InternalError])('what is wrong')


def move(c, to):
    from siotls import states
    if to is not None:
        c._move_to_state(getattr(states, to), **ARGS[to])


def receive(c, after):
    """models for receive_data; after(c) is called when more content is asked for"""
    from siotls.contents import Content, alerts
    from siotls.serial import TLSBufferError
    from siotls import iana

    def bad(tag):
        r = choose(['alert', 'other', *(['buffer'] if tag != 'read' else [])])
        e = fatal() if r == 'alert' else (ValueError('other') if r == 'other' else TLSBufferError('not enough'))
        event('raised', tag, e, flags(c))
        raise e

    calls = []

    def read_next():
        if calls:
            after(c)
            return None
        calls.append(1)
        r = choose(['none', 'content', 'raise'])
        event('read', r)
        if r == 'none':
            return None
        if r == 'raise':
            bad('read')
        t = choose([20, 21, 22, 23, 24, 99])
        d = bvar('content')
        event('content', t, d)
        return t, d
    c._read_next_content = read_next

    class Parser:
        __vc_ok__ = True

        def __init__(self, t):
            self.t = t

        def parse(self, stream, config=None, nconfig=None):
            event('parse', stream, config is c.config, nconfig is c.nconfig)
            if not choose([True, False]):
                bad('parse')
            n = sint('bytes read by the parser', 0)
            assume(T(n) <= nz(blen(bvar('content'))))
            stream.read(n)
            m = Content_(content_type=iana.ContentType(self.t), msg_type=iana.HandshakeType.FINISHED)
            event('parsed', m)
            return m

    from siotls import contents
    for k in (20, 21, 22, 23, 24):
        contents._content_registry[iana.ContentType(k)] = Parser(k)

    def update(data, side, kind):
        event('update', data, side, kind, 'process' in [e[0] for e in events()])
    c._transcript.update = update

    def process(m):
        event('process', m, type(c._state).__name__)
        to = choose([None, 'Connected' if type(c._state).__name__ in HANDSHAKE else None, 'Failed', 'shut'])
        if to == 'shut':
            move(c, 'Closed')
            c._state.can_receive = False
        else:
            move(c, to)
        if not choose([True, False]):
            bad('process')
    object.__setattr__(c._state, 'process', process)
