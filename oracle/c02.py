"""C02 executable contracts of the messages."""
from oracle.run import case, Fail
from oracle import wire as W, msgs as M
from siotls.serial import SerialIO
from siotls.contents import Content

KINDS = list(M.HANDSHAKES) + list(M.PLAIN)


def gen(o):
    for k in KINDS:
        for _ in range(8):
            yield dict(f=M.gen(o, k))
    while True:
        yield dict(f=M.gen(o, o.rng.choice(KINDS)))


def parse(f, data):
    c, n = M.receiver(f)
    s = SerialIO(data)
    m = Content.get_parser(M.content_type(f)).parse(s, config=c, nconfig=n)
    return m, s


@case(gen)
def roundtrip(f):
    want = M.wire(f)
    k = f['kind']
    msg = M.make(f)
    if msg is not None:
        before = W.fields(msg)
        try:
            got = bytes(msg.serialize())
        except Exception as e:  # noqa: BLE001
            raise Fail(f'{k} cannot be serialized: {type(e).__name__}: {e}')
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Fail(f'{k}: byte {i} is {got[i:i + 8].hex()} instead of {want[i:i + 8].hex()}')
        if W.fields(msg) != before:
            raise Fail(f'{k} was changed by serializing it')
    try:
        back, s = parse(f, want)
    except Exception as e:  # noqa: BLE001
        raise Fail(f'{k} is not read back: {type(e).__name__}: {e}')
    if s.tell() != len(want):
        raise Fail(f'{k}: {s.tell()} bytes consumed of {len(want)}')
    if bytes(back.serialize()) != want:
        raise Fail(f'{k} is not the same when serialized again')
    if msg is None:
        if (int(back.level), int(back.description)) != (f['level'], f['desc']):
            raise Fail(f'alert read as {back!r}')
        return
    if type(back) is not type(msg):
        raise Fail(f'{k} is read back as {type(back).__name__}')
    if f['kind'] == 'certificate':
        a, b = W.fields(back.certificate_list), W.fields(msg.certificate_list)
    else:
        a, b = W.fields(back), W.fields(msg)
        if k == 'alert':
            a = b = 0
            if (back.level, back.description) != (msg.level, msg.description):
                raise Fail(f'alert read as {back!r}')
    if a != b:
        raise Fail(f'{k} is read back as {back!r}'[:300])
    if k != 'certificate' and k != 'alert' and back != msg:
        raise Fail(f'{k}: the message read back is not equal')


def gen_limits(o):
    for n in (0, 1, 254, 255, 256):
        yield dict(f=dict(kind='certificate_request', ctx='ab' * n, exts=[['SignatureAlgorithms', dict(schemes=[0x403])]]), ok=n < 256)
        yield dict(f=dict(kind='certificate', ctx='ab' * n, type=0, side='client', entries=[]), ok=n < 256)
    for n in (0, 1, 65535, 65536):
        yield dict(f=dict(kind='certificate_verify', alg=0x403, sig='ab' * n), ok=n < 65536)
    for n in (65526, 65527, 65528, 65529, 65530, 65531, 65532):
        e = [['Cookie', dict(c='ab' * 1000)], ['Padding', dict(n=n - 1006)]]
        yield dict(f=dict(kind='client_hello', random='11' * 32, sid='', suites=[0x1301], exts=e), ok=n + 4 <= 65535)
    for n in (32766, 32767, 32768):
        yield dict(f=dict(kind='client_hello', random='11' * 32, sid='22' * 32, suites=[0x1301] * n, exts=[]), ok=n < 32768)
    for p, q in ((16381, 0), (16382, 0), (0, 16381), (0, 16382), (16000, 381), (16000, 382), (16381, 1)):
        yield dict(f=dict(kind='heartbeat', type=1, payload='ab' * p, padding='cd' * q), ok=p + q <= 16381)
    yield dict(f=dict(kind='finished', data='ab' * ((1 << 24) - 1)), ok=True)
    yield dict(f=dict(kind='finished', data='ab' * (1 << 24)), ok=False)
    for lv in (1, 2):
        for d in range(256):
            yield dict(f=dict(kind='alert', level=lv, desc=d), ok=True)


@case(gen_limits)
def limits(f, ok):
    if ok:
        return roundtrip(f)
    try:
        got = M.make(f).serialize()
    except (OverflowError, ValueError):
        return
    raise Fail(f'{f["kind"]} does not fit and is serialized to {len(got)} bytes')
