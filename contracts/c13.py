"""C13: every receive error is signalled to the peer and is terminal."""
from contracts.plumbing import *

TASKS = []


def task(name, **o):
    def deco(f):
        TASKS.append(Task(name, f, **o))
        return f
    return deco


def terminal(c, e, sends, started):
    """the connection after a call that raised"""
    from siotls.contents import alerts
    prove('a receive that raises leaves the connection failed', state(c) == 'Failed', f'{state(c)} {exc_name(e)}')
    sent = of('sent')
    if sends:
        prove('exactly one message is queued, an alert', len(sent) == 1 and sent[0][2] == 21, f'{len(sent)}')
        if len(sent) == 1:
            a = sent[0][1]
            prove('it is the last thing done', events()[-1][0] == 'sent')
            prove('the alert is a fatal one', int(a.level) == 2)
            if isinstance(e, alerts.TLSFatalAlert):
                prove('the alert queued is the one raised', a is e or type(a) is type(e) and int(a.description) == int(e.description),
                      f'{exc_name(e)} {type(a).__name__}')
                cover('an alert raised')
            else:
                prove('an error that is no alert is signalled as an internal error', type(a).__name__ == 'InternalError',
                      type(a).__name__)
                cover('an internal error')
    else:
        prove('nothing is queued by a connection that cannot send', not sent)


def receiving(name):
    def f():
        c, side = enter_state(name)
        before = c._state
        keys = c._cipher.must_encrypt
        data = bvar('received')
        inp = bvar('received before')
        c._input_data = rt.MODELS[bytearray](inp)
        fl = flags(c)

        def after(c):
            # an arbitrary iteration of the loop ends as the next one begins
            s = state(c)
            prove('the loop goes on only while receiving', bool(c._state.can_receive))
            prove('the loop goes on in no state but those a connection may be in', s in STATES)
            proc = of('process')
            if name == 'Failed':
                prove('a failed connection stays failed', s == 'Failed' or not proc)
            raised = of('raised')
            prove('no error is passed over', not raised)
            events().append(('again',))
            cover('another content')
        receive(c, after)
        _, e = attempt(c.receive_data, data)
        if branch(T(blen(data)) == 0):
            prove('no data is refused', isinstance(e, ValueError), exc_name(e))
            prove('nothing is processed', c._state is before and not events() and beq(c._input_data, inp))
            return
        if not fl[1]:
            prove('data after the receiving end was closed is refused', is_alert(e, 'UnexpectedMessage'), exc_name(e))
            prove('nothing is processed', c._state is before and not events() and beq(c._input_data, inp))
            cover('closed')
            return
        prove('what is received joins what was there', beq(c._input_data, concat(inp, data)))
        raised = of('raised')
        got = of('content')
        if raised:
            tag, x, (can_send, _) = raised[0][1:]
            from siotls.contents import alerts
            from siotls.serial import TLSBufferError
            prove('an error is raised', e is not None)
            if e is None:
                return
            if isinstance(x, TLSBufferError) and tag == 'parse':
                prove('a content that ends too early is refused with a decode error', is_alert(e, 'DecodeError'), exc_name(e))
            else:
                prove('the error raised is the one found', e is x, exc_name(e))
            terminal(c, e, can_send, True)
        elif e is not None:
            # the parser left something, or does not exist
            prove('errors come from what was received', bool(got), exc_name(e))
            prove('a content of an unknown type, or not read to its end, is refused with a decode error', is_alert(e, 'DecodeError'),
                  exc_name(e))
            prove('it is not processed', not of('process') and not of('update'))
            terminal(c, e, fl[0], True)
            cover('trailing bytes')
        else:
            prove('nothing is queued without an error', not of('sent'))
            if got:
                t, d = got[0][1:]
                prove('the content is parsed, with the configuration in force',
                      len(of('parse')) == 1 and of('parse')[0][2] and of('parse')[0][3])
                if of('parsed'):
                    m = of('parsed')[0][1]
                    proc = of('process')
                    prove('what was parsed is processed once, by the state of the connection',
                          len(proc) == 1 and proc[0][1] is m and proc[0][2] == name)
                    ups = of('update')
                    prove('handshakes join the transcript before, with their bytes, as those of the peer', (len(ups) == (t == 22)) and all(
                        not u[4] and u[2] == c.config.other_side and u[3] == m.msg_type for u in ups) and
                        And(True, *[beq(u[1], d) for u in ups]))
                    cover('processed')
    return f


for _n in STATES:
    TASKS.append(Task(f'receiving in {_n}', receiving(_n), cost=3))


def rekeying():
    """the usage limit of a key is near"""
    c, side = enter_state(choose(['Connected', 'Closed']), rekey=True)
    receive(c, lambda c: None)
    fl = flags(c)
    assume(fl[1])
    data = bvar('received')
    assume(T(blen(data)) >= 1)
    _, e = attempt(c.receive_data, data)
    cover('received')
    if e is not None and not of('raised') and not (of('content') and is_alert(e, 'DecodeError')):
        prove('a receive near the usage limit of the keys that raises leaves the connection failed', state(c) == 'Failed',
              f'{state(c)} {exc_name(e)}')


TASKS.append(Task('receiving near the usage limit', rekeying))

METHODS = ['initiate_connection', 'send_data', 'close_receiving_end', 'close_sending_end', 'rekey', 'data_to_read', 'data_to_send', '_fail']


def call(c, name):
    a = ()
    if name == 'send_data':
        a = (bvar('data to send'),)
    if name == '_fail':
        a = choose([(), (fatal(),)])
    return attempt(getattr(c, name), *a)


def failed(name):
    """whatever is called on a failed connection"""
    def f():
        real = name == 'send_data' or choose([True, False])
        c, side = enter_state('Failed', real_send=real)
        out, app = c._output_data, c._application_data
        vo, va = rt.MODELS[bytes](out), rt.MODELS[bytes](app)
        r, e = call(c, name)
        prove('a failed connection stays failed', state(c) == 'Failed')
        prove('a failed connection cannot send', not c._state.can_send and not c._state.can_send_application_data)
        prove('a failed connection queues nothing', not of('sent'))
        if name == 'data_to_send':
            prove('what was queued before can be taken, once', And(beq(r, vo), T(blen(c._output_data)) == 0))
        else:
            prove('a failed connection queues nothing more', beq(c._output_data, vo))
        if name == 'data_to_read':
            prove('what was received before can be read, once', And(beq(r, va), T(blen(c._application_data)) == 0))
        else:
            prove('a failed connection delivers nothing more', beq(c._application_data, va))
        prove('a failed connection is not connected', not c.is_connected())
        if name in ('send_data', 'initiate_connection', 'rekey'):
            prove('it is refused', e is not None)
        cover('called')
    return f


for _n in METHODS:
    TASKS.append(Task(f'{_n} on a failed connection', failed(_n)))


@task('messages to a failed connection')
def t_messages():
    c, side = enter_state('Failed')
    kind = choose([('content', 20), ('content', 21), ('content', 23), ('content', 24), ('handshake', 1), ('handshake', 2), ('handshake', 11), ('handshake', 20), ('handshake', 'other')])
    app = rt.MODELS[bytes](c._application_data)
    e = process(c, content(kind))
    prove('a failed connection stays failed', state(c) == 'Failed' and not c._state.can_send)
    prove('a failed connection queues nothing', not of('sent'))
    prove('a failed connection delivers nothing', beq(c._application_data, app))
    cover('received')


@task('alerts after the handshake')
def t_alerts():
    name = choose(['Connected', 'Closed'])
    c, side = enter_state(name)
    before, fl = c._state, flags(c)
    assume(fl[1])
    m = content(('content', 21))
    e = process(c, m)
    if branch(Or(T(m.description) == 0, T(m.level) == 1)):
        prove('a warning or a close is no error', e is None, exc_name(e))
        prove('it is not answered', not of('sent'))
        if branch(T(m.description) == 0):
            prove('a close ends receiving, and nothing else', state(c) == 'Closed' and not c._state.can_receive and
                  c._state.can_send == fl[0])
            cover('close')
        else:
            prove('a warning changes nothing', c._state is before and flags(c) == fl)
            cover('warning')
    else:
        prove('a fatal alert of the peer is an error', e is not None)
        cover('fatal')


@task('failing')
def t_fail():
    """_fail, in every state"""
    from siotls.contents import alerts
    name = choose(STATES)
    c, side = enter_state(name)
    before, fl = c._state, flags(c)
    a = choose([None, alerts.DecodeError(), alerts.CloseNotify(), alerts.UserCanceled()])
    _, e = attempt(c._fail, a)
    sent = of('sent')
    if a is not None and int(a.level) != 2:
        prove('a warning is no failure', isinstance(e, ValueError) and c._state is before and not sent, exc_name(e))
        cover('refused')
        return
    prove('the connection fails', e is None and state(c) == 'Failed', exc_name(e))
    prove('the alert is queued once if the connection could send', [s[1] for s in sent] == ([a] if a is not None and fl[0] else []))
    cover('failed')
