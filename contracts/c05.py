"""C05: sent records carry exactly the content, within the size limits."""
from contracts.states import *
from contracts import states as S

TASKS = []
SIZES = (512, 1024, 2048, 4096, 16384)


def task(name, **o):
    def deco(f):
        TASKS.append(Task(name, f, **o))
        return f
    return deco


class Sealing:
    """a suite with keys: what it seals depends on the number of the record, the data and the header"""
    __vc_ok__ = True
    __vc_state__ = True
    must_encrypt = must_decrypt = True
    should_rekey = False

    def __init__(self, tag):
        self.tag_length, self.number = tag, 0

    def encrypt(self, data, header):
        n = self.number
        self.number = n + 1
        return sealed(n, data, header, self.tag_length)


def sealed(n, data, header, tag):
    shape, terms = sym.sig([sym.mkint(zi(n)), data, header])
    return bvar(f'sealed{shape}', simp(nz(blen(data)) + tag), tuple(terms))


class Sent:
    """a message of any kind"""
    __vc_ok__ = True

    def __init__(self, content_type, can_fragment, data, msg_type=None):
        self.content_type, self.can_fragment, self.data, self.msg_type = content_type, can_fragment, data, msg_type

    def serialize(self):
        return self.data


def sender(size, tag, state):
    """a connection in that state, sending with at most that many bytes by record"""
    from siotls import connection as m, iana
    from siotls.contents import alerts
    size_ = iana.MaxFragmentLengthOctets(size)
    side = choose(['client', 'server'])
    c = connection(side, config(side))
    where = choose(['configured', 'negotiated', 'not negotiated'])
    if where == 'configured':
        object.__setattr__(c.config, 'max_fragment_length', size_)
    elif where == 'negotiated':
        negotiated(c, max_fragment_length=size_)
    else:
        object.__setattr__(c.config, 'max_fragment_length', size_)
        negotiated(c)
    for n in ('can_send_heartbeat', 'can_echo_heartbeat'):
        if c.nconfig is not None:
            setattr(c.nconfig, n, True)
    del c._send_content
    if tag is not None:
        c._cipher = Sealing(tag)
    enter(c, state, **ARGS[state])
    return c, side


def record(size, tag, ct, data, i, whole=False):
    """the i-th record of a message"""
    full = size - (0 if tag is None else 1 + tag)
    n = simp(nz(blen(data)))
    lo = simp(nz(i) * full)
    hi = simp(z3.If(lo + full < n, lo + full, n))
    if whole:
        lo, hi = 0, n
    part = data if whole else bslice(data, lo, hi)
    if tag is None:
        return concat(bytes([ct, 3, 3]), mkbytes((be(simp(hi - lo), 2),)), part)
    chunk = min(size, 4096)
    pad = simp((-(hi - lo + 1 + tag)) % chunk)
    inner = mkbytes((*rope_of(part), Lit(bytes([ct])), Rep(0, pad)))
    ln = mkbytes((be(simp(nz(blen(inner)) + tag), 2),))
    header = concat(b'\x17\x03\x03', ln)
    return concat(header, sealed(mkint(nz(i)), inner, header, tag))


def send(size, tag):
    def f():
        from siotls import iana
        from siotls.iana import ContentType, HandshakeType
        ct = choose([20, 21, 22, 23])
        can = choose([True, False]) if ct != 22 else True
        c, side = sender(size, tag, 'Connected')
        queued = bvar('queued before')
        c._output_data = rt.MODELS[bytearray](queued)
        data = bvar('message')
        t = HandshakeType.CERTIFICATE if ct == 22 else None
        _, e = attempt(c._send_content, Sent(ContentType(ct), can, data, t))
        full = size - (0 if tag is None else 1 + tag)
        n = nz(blen(data))
        out = c._output_data
        if branch(And(n > full, not can)):
            prove('a message that may not be fragmented and does not fit is refused', isinstance(e, ValueError), exc_name(e))
            prove('nothing is queued', beq(out, queued))
            cover('refused')
            return
        prove('a message that fits, or may be fragmented, is sent', e is None, exc_name(e))
        if e is not None:
            return
        if branch(n <= full):
            want = record(size, tag, ct, data, 0, True)
            cover('one record')
        else:
            m = simp((n + full - 1) / full)
            want = mkbytes((Fold(0, m, lambda i: rope_of(record(size, tag, ct, data, i))),))
            cover('many records')
        prove('the records of the message are queued, after what was there', beq(out, concat(queued, want)))
        ups = of('update')
        if ct == 22:
            prove('a handshake message joins the transcript once, with its bytes, as ours',
                  len(ups) == 1 and And(beq(ups[0][1], data), ups[0][2] == side, ups[0][3] == t))
        else:
            prove('nothing else joins the transcript', not ups)
    return f


for _z in SIZES:
    for _t in (None, 8, 16):
        TASKS.append(Task(f'records of {_z} bytes, {"plain" if _t is None else f"tag of {_t}"}', send(_z, _t), cost=5))
