"""C19: the socket wrapper moves every byte, in order, in both directions.

The wrapper runs on a real connection in an arbitrary state; what is replaced is what the connection does with what it
is given (initiate_connection, receive_data, send_data, the queueing of a message): any bytes are queued, any data is
delivered, any state is entered, or an exception is raised.  The transport is arbitrary too: what it takes and returns
per call, when it ends, when it fails.  Ghost state: all that was queued and all that the transport took, all that was
delivered and not returned yet, all that was received and all that was given to the connection.

Loops of the wrapper: at their head everything queued was handed over and everything received was given on; this
invariant is proved before the first iteration, and after any iteration from any state in which it holds."""
import sys
from contracts.plumbing import *
from pyvc.core import PathEnd
from pyvc.rt import Poison

TASKS = []
BROKEN = 'the transport failed'


class Lost(Exception):
    """what the transport raises"""


class World:
    """one connection, one transport, what went through them"""
    __vc_ok__ = True

    def __init__(self, name, reading=False):
        self.n = 0
        self.reading = reading          # reads return data: they only block when there is none
        self.broken = self.refused = False
        self.c, self.side = enter_state(name)
        c = self.c
        self.hs = {'client': 'ClientWaitServerHello', 'server': 'ServerWaitFinished'}[self.side]
        self.eof = False
        negotiated(c)   # any limit, that of the configuration too
        c.nconfig.max_fragment_length = sint('limit', 64, 16384)
        self.queued = self.taken = bvar('sent before')
        self.received = self.given = bvar('received before')
        self.unread = bvar('data not read')
        c._output_data = rt.MODELS[bytearray](b'')
        c._application_data = rt.MODELS[bytearray](self.unread)
        self.calls = []
        for m in ('receive_data', 'send_data', 'initiate_connection', '_send_content'):
            setattr(c, m, getattr(self, m))

    def fresh(self, what):
        self.n += 1
        return bvar(f'{what} {self.n}')

    # the connection

    def queue(self, what='queued'):
        b = self.fresh(what)
        assume(T(blen(b)) > 0)
        self.c._output_data += b
        self.queued = concat(self.queued, b)

    def _send_content(self, content):
        from siotls import TLSError
        if not self.c._state.can_send:
            raise TLSError('cannot send')
        self.queue('message')

    def initiate_connection(self):
        from siotls import TLSError
        self.calls.append(('initiate',))
        if not choose([0, 1]):
            raise TLSError('not now')
        if self.side == 'client':
            self.queue('hello')
        move(self.c, 'ClientWaitServerHello' if self.side == 'client' else 'ServerWaitClientHello')

    def become(self, *states):
        to, flags = choose([x for x in (('same', None), (self.hs, None), ('Connected', None), ('Failed', None), ('Closed', (False, True)),
                                        ('Closed', (True, False)), ('Closed', (False, False))) if not states or x[0] in states])
        if to != 'same':
            move(self.c, to)
        if flags:
            self.c._state.can_send, self.c._state.can_receive = flags

    def receive_data(self, data):
        prove('what is given to the connection is not empty', T(blen(data)) > 0)
        prove('it is given while the connection receives', bool(self.c._state.can_receive))
        self.given = concat(self.given, data)
        self.calls.append(('receive', data))
        if choose([0, 1]):
            self.queue('answer')
        if choose([0, 1]):
            b = self.fresh('delivered')
            self.c._application_data += b
            self.unread = concat(self.unread, b)
        if choose([0, 1]):
            self.become()
        else:
            if choose([0, 1]):
                move(self.c, 'Failed')
            self.refused = True
            raise choose([fatal(), ValueError('other')])

    def send_data(self, data):
        from siotls import TLSError
        self.calls.append(('send', data))
        if not self.c._state.can_send_application_data or not choose([0, 1]):
            self.refused = True
            raise TLSError('cannot send application data')
        self.queue('records')

    # the transport

    def fails(self):
        if not choose([0, 1]):
            self.broken = True
            raise Lost(BROKEN)

    def recv(self, n):
        prove('the transport is asked for at least one byte', T(n) > 0)
        prove('it is asked when all that was received was given to the connection', beq(self.given, self.received))
        prove('it is asked when all that was queued was handed over', self.handed())
        prove('it is not asked after its end', not self.eof)
        if self.reading:
            prove('reading blocks only while connected', self.c.is_connected())
            prove('reading blocks only when there is no data', T(blen(self.unread)) == 0)
        else:
            prove('the handshake blocks only while it is not over', not self.c.is_post_handshake())
        self.fails()
        b = self.fresh('from the transport')
        assume(T(blen(b)) <= T(n))
        if not branch(T(blen(b)) > 0):
            self.eof = True
            return b''
        self.received = concat(self.received, b)
        return b

    def sendall(self, data):
        self.fails()
        self.taken = concat(self.taken, data)

    def send(self, data):
        self.fails()
        if not branch(T(blen(data)) > 0):
            return 0
        k = T(sint(f'taken at once {self.n}', 1, None))
        self.n += 1
        assume(k <= T(blen(data)))
        self.taken = concat(self.taken, bslice(data, 0, k))
        return sym.mkint(k)

    # what holds

    def handed(self):
        return And(beq(self.taken, self.queued), T(blen(self.c._output_data)) == 0)

    def end(self, e):
        """after any operation"""
        if self.broken:
            prove('what the transport raises is not hidden', isinstance(e, Lost), exc_name(e))
            raise PathEnd
        prove('all that was queued was handed to the transport, in order', self.handed())
        prove('all that was received was given to the connection, in order', beq(self.given, self.received))


def frame():
    """the locals of the function of the wrapper that runs"""
    f = sys._getframe(2)
    while f is not None and '/siotls/' not in f.f_code.co_filename:
        f = f.f_back
    return f.f_locals if f is not None else {}


def isdata(v):
    return isinstance(v, (bytes, bytearray)) or type(v).__name__ in ('SymBytes', 'SymByteArray')


def invariant(w, what):
    """the contract of a loop of the wrapper"""
    first = {}

    def head(lid, it, names):
        mine = frame()
        if it == 0:
            if first:
                return None
            first[lid] = [n for n, v in mine.items() if isdata(v) and n not in ('data',)] if what == 'read' else []
        elif lid not in first:
            return None
        held = concat(*[mine[n] for n in first[lid]], w.c._application_data)
        when = 'at first' if it == 0 else 'after an iteration'
        prove(f'{when}, all that was queued was handed over', w.handed())
        prove(f'{when}, all that was received was given on', beq(w.given, w.received))
        prove(f'{when}, the data not returned is held', beq(held, w.unread))
        if first[lid]:
            prove(f'{when}, it is held by the reader', T(blen(w.c._application_data)) == 0)
        if w.eof:
            prove('at the end of the transport the receiving end is closed', w.c.is_post_handshake() and not w.c.is_connected())
        if it:
            cover('an iteration')
            raise PathEnd
        # any earlier iterations
        w.queued = w.taken = bvar('sent in earlier iterations')
        w.received = w.given = bvar('received in earlier iterations')
        w.calls.clear()
        over = {n: Poison(n) for n in names}
        parts = []
        for n in first[lid]:
            parts.append(bvar(f'held in {n}'))
            if n in names:
                over[n] = rt.MODELS[bytearray](parts[-1])
            else:
                parts[-1] = mine[n]
        rest = b'' if parts else bvar('held by the connection')
        w.c._application_data = rt.MODELS[bytearray](rest)
        w.unread = concat(*parts, rest)
        w.become()
        return over
    ghost()['while head'] = head


def run(w, call, *a):
    _, e = r = attempt(call, *a)
    ghost().pop('while head', None)
    w.end(e)
    return r


def wrapped(w):
    s = w.c.wrap(w)
    prove('wrapping does nothing', not w.calls)
    return s


def reading(name):
    def f():
        w = World(name, reading=True)
        s = wrapped(w)
        invariant(w, 'read')
        r, e = run(w, s.read)
        if e is not None:
            prove('reading raises what receiving raised only', w.refused, exc_name(e))
            prove('the data received before an error can still be read', beq(w.c._application_data, w.unread))
            cover('error') if name == 'Connected' else None
            return
        prove('reading returns all the data not returned before', beq(r, w.unread))
        prove('what was returned is not kept', T(blen(w.c._application_data)) == 0)
        prove('reading returns no data only when the connection receives no more', Or(T(blen(r)) > 0, not w.c.is_connected()))
        if w.eof:
            prove('at the end of the transport the receiving end is closed', w.c.is_post_handshake() and not w.c.is_connected())
            cover('end')
        cover('data')
    return f


def handshake(name):
    def f():
        w = World(name)
        s = wrapped(w)
        call = choose([s.do_handhskake, s.__enter__])
        invariant(w, 'handshake')
        r, e = run(w, call)
        prove('the data received during the handshake can be read', beq(w.c._application_data, w.unread))
        if e is not None:
            cover('error')
            return
        prove('the handshake is over', w.c.is_post_handshake())
        if w.eof:
            prove('a transport that ends during the handshake ends it unsuccessfully', state(w.c) == 'Failed')
            cover('end')
        cover('over')
    return f


def hello(side):
    """what precedes the loop"""
    def f():
        w = World('ClientStart' if side == 'client' else 'ServerStart')
        s = wrapped(w)

        def head(lid, it, names):
            prove('the connection is initiated, once', w.calls == [('initiate',)])
            prove('the hello was handed over', w.handed())
            cover('initiated')
            raise PathEnd
        ghost()['while head'] = head
        _, e = run(w, s.do_handhskake)
        prove('it raises what initiating raises', e is not None and w.calls == [('initiate',)])
        cover('refused')
    return f


def writing(name):
    def f():
        w = World(name)
        s = wrapped(w)
        data = bvar('data to write')
        r, e = run(w, s.write, data)
        prove('the data is given to the connection once', len(w.calls) == 1 and w.calls[0][0] == 'send' and cond(beq(w.calls[0][1], data)))
        prove('writing raises what sending raised only', (e is not None) == w.refused, exc_name(e))
        prove('nothing is read', And(beq(w.c._application_data, w.unread)))
        cover('refused' if e is not None else 'written')
    return f


def closing(name):
    def f():
        w = World(name)
        s = wrapped(w)
        before = w.queued
        can = bool(w.c._state.can_send)
        over = bool(w.c.is_post_handshake())
        call, a = choose([(s.close, ()), (s.__exit__, (None, None, None))])
        r, e = run(w, call, *a)
        prove('closing raises nothing', e is None or not over and not can, exc_name(e))
        prove('the sending end is closed', e is not None or not w.c._state.can_send)
        if can:
            prove('a close notify was handed over', T(blen(w.taken)) > T(blen(before)))
        prove('data received before can still be read', beq(w.c._application_data, w.unread))
        cover('closed')
    return f


for _n in STATES:
    TASKS.append(Task(f'read in {_n}', reading(_n), cost=5, max_paths=12000))
    TASKS.append(Task(f'write in {_n}', writing(_n), cost=2))
    TASKS.append(Task(f'close in {_n}', closing(_n), cost=2))
for _n in ('ClientStart', 'ServerStart'):
    TASKS.append(Task(f'handshake from {_n}', handshake(_n), cost=5, max_paths=12000))
for _n in ('client', 'server'):
    TASKS.append(Task(f'the hello of a {_n}', hello(_n), cost=2))
