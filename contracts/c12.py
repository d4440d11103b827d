"""C12: application data only flows on an established, unclosed connection."""
from contracts.plumbing import *

TASKS = []


def unchanged(c, before, fl, out, app):
    return c._state is before and flags(c) == fl and not of('sent') and And(beq(c._output_data, out), beq(c._application_data, app))


def start(name, **k):
    c, side = enter_state(name, **k)
    return c, c._state, flags(c), rt.MODELS[bytes](c._output_data), rt.MODELS[bytes](c._application_data)


def open_for_sending(name, fl):
    return name == 'Connected' or name == 'Closed' and fl[0]


def sending(name):
    def f():
        from siotls import TLSError
        c, before, fl, out, app = start(name, real_send=True)
        keys = c._cipher.must_encrypt
        data = bvar('data to send')
        assume(T(blen(data)) <= 16384 - 17)
        _, e = attempt(c.send_data, data)
        if open_for_sending(name, fl):
            prove('data is accepted after the handshake', e is None, exc_name(e))
            prove('the connection is as before', c._state is before and flags(c) == fl)
            prove('it is protected by the keys in force', keys)
            n = nz(blen(data))
            pad = simp((-(n + 17)) % 4096)
            inner = mkbytes((*rope_of(data), Lit(b'\x17'), Rep(0, pad)))
            header = concat(b'\x17\x03\x03', mkbytes((be(simp(nz(blen(inner)) + 16), 2),)))
            prove('the data is queued, sealed, after what was there',
                  beq(c._output_data, concat(out, header, c._cipher.encrypt(inner, header))))
            cover('sent')
        else:
            prove('data is refused', isinstance(e, TLSError), exc_name(e))
            prove('nothing is queued, nothing changes', unchanged(c, before, fl, out, app))
            cover('refused')
        prove('data sent is no part of the transcript', not of('update'))
    return f


def closing(name, which):
    """one end is closed, then again"""
    def f():
        c, before, fl, out, app = start(name)
        call = c.close_sending_end if which == 'send' else c.close_receiving_end
        _, e = attempt(call)
        prove('closing raises nothing', e is None, exc_name(e))
        sent = list(of('sent'))
        s = state(c)
        prove('what was received is still there', beq(c._application_data, app))
        if name in HANDSHAKE:
            prove('a handshake that is closed has failed', s == 'Failed' and not c.is_connected() and not c._state.can_send)
            prove('closing the sending end queues one close notify, the receiving end nothing',
                  len(sent) == (which == 'send') and all(x[2] == 21 and int(x[1].description) == 0 for x in sent))
            cover('handshake')
        elif name == 'Failed':
            prove('a failed connection stays failed', c._state is before and not sent)
            cover('failed')
        else:
            want = (False, fl[1]) if which == 'send' else (fl[0], False)
            prove('the connection is closed on that side only', s == 'Closed' and flags(c) == want, f'{s} {flags(c)}')
            prove('a close notify is queued exactly when the sending end was open',
                  len(sent) == (which == 'send' and fl[0]) and all(x[2] == 21 and int(x[1].description) == 0 and int(x[1].level) == 1
                                                                  for x in sent))
            prove('it is connected as long as it receives', bool(c.is_connected()) == want[1])
            prove('data may be sent as long as the sending end is open', bool(c._state.can_send_application_data) == want[0])
            cover('closed')
        _, e = attempt(call)
        prove('closing again does nothing', e is None and state(c) == s and len(of('sent')) == len(sent), exc_name(e))
    return f


def delivery(name):
    """application data, received"""
    def f():
        c, before, fl, out, app = start(name)
        m = content(('content', 23))
        e = process(c, m)
        if name == 'Connected' or name == 'Closed' and fl[1]:
            prove('data is accepted after the handshake', e is None, exc_name(e))
            prove('it is delivered whole, after what came before', beq(c._application_data, concat(app, m.content_data)))
            prove('nothing else changes', c._state is before and flags(c) == fl and not of('sent'))
            r, e = attempt(c.data_to_read)
            prove('reading returns all that was not read', e is None and beq(r, concat(app, m.content_data)), exc_name(e))
            r, e = attempt(c.data_to_read)
            prove('each byte is returned once', e is None and T(blen(r)) == 0, exc_name(e))
            cover('delivered')
            return
        if name == 'Failed':
            prove('data to a failed connection is ignored', e is None, exc_name(e))
        else:
            prove('data at another moment is refused with an unexpected message alert', is_alert(e, 'UnexpectedMessage'), exc_name(e))
        prove('nothing is delivered, nothing changes', unchanged(c, before, fl, out, app))
        cover('refused')
    return f


def reported(name):
    """is_connected and is_post_handshake"""
    def f():
        c, before, fl, out, app = start(name)
        prove('a connection is reported as connected after the handshake, until the receiving end is closed',
              bool(c.is_connected()) == (name == 'Connected' or name == 'Closed' and fl[1]))
        prove('the handshake is over when it completed or failed', bool(c.is_post_handshake()) == (name in ('Connected', 'Closed', 'Failed')))
        _, e = attempt(c.initiate_connection) if name not in ('ClientStart', 'ServerStart') else (0, 0)
        if e != 0:
            prove('a connection is initiated once', e is not None)
            prove('nothing changes', unchanged(c, before, fl, out, app))
        for g in (c.is_connected, c.is_post_handshake):
            attempt(g)
        prove('asking changes nothing', unchanged(c, before, fl, out, app))
        cover('asked')
    return f


def completed(name):
    """the only way into the connected state"""
    def f():
        contracts()
        side = sides(name)[0]
        c = connection(side)
        enter_any(c, name)
        from siotls import iana
        m = Content_(content_type=iana.ContentType.HANDSHAKE, msg_type=iana.HandshakeType.FINISHED, verify_data=bvar('finished received'))
        e = process(c, m)
        ok = [v for v in of('verify_finish') if v[3]]
        if state(c) == 'Connected':
            keys = [i for i, x in enumerate(events()) if x[0] == 'application_keys']
            prove('a connection is established on a finished value that was verified', e is None and bool(ok))
            prove('the application keys are installed by then', len(keys) == 1 and events()[keys[0]][3] is c._cipher)
            prove('nothing is sent under them before the connection is established',
                  not any(x[0] == 'sent' for x in events()[keys[0]:]))
            cover('connected')
        else:
            prove('a handshake that fails is not reported as connected', not c.is_connected() and e is not None)
            cover('failed')
    return f


for _n in STATES:
    TASKS.append(Task(f'sending in {_n}', sending(_n)))
    TASKS.append(Task(f'closing the sending end in {_n}', closing(_n, 'send')))
    TASKS.append(Task(f'closing the receiving end in {_n}', closing(_n, 'receive')))
    TASKS.append(Task(f'data received in {_n}', delivery(_n)))
    TASKS.append(Task(f'what is reported in {_n}', reported(_n)))
for _n in ('ClientWaitFinished', 'ServerWaitFinished'):
    TASKS.append(Task(f'completion in {_n}', completed(_n)))
