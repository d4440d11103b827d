"""C18: the key log."""
from pyvc.harness import *
from pyvc.harness import Task
from pyvc import models
from contracts.crypto import *

TASKS = []
OPTIONAL = {'EXPORTER_SECRET', 'EARLY_EXPORTER_SECRET'}


def task(name, **o):
    def deco(f):
        TASKS.append(Task(name, f, **o))
        return f
    return deco


def pieces(fmt, args):
    """words of a line"""
    words = [[]]
    for p in models.log_line(fmt, args):
        if isinstance(p, sym.SymHex):
            words[-1].append(p)
        elif isinstance(p, (bytes, bytearray)) or isinstance(p, Sym) and not isinstance(p, sym.SymStr):
            raise Unsupported('piece of a key log line')
        elif isinstance(p, sym.SymStr):
            raise Unsupported(f'text of a key log line: {p.label}')
        else:
            ws = str(p).split(' ')
            words[-1].append(ws[0]) if ws[0] else None
            for w in ws[1:]:
                words.append([w] if w else [])
    return words


def is_hex(word, b):
    """condition: the word is the hexadecimal of b"""
    if not all(isinstance(p, (sym.SymHex, str)) for p in word) or not word:
        return z3.BoolVal(False)
    try:
        got = concat(*[p.b if isinstance(p, sym.SymHex) else bytes.fromhex(p) for p in word])
    except ValueError:
        return z3.BoolVal(False)
    return beq(got, b)


def check(tag, on, want, random):
    lines = ghost().get('keylog', [])
    ghost()['keylog'] = []
    if not on:
        prove(f'{tag}: nothing is written when key logging is disabled', not lines, str([l[0] for l in lines]))
        return
    seen = set()
    for fmt, args in lines:
        w = pieces(fmt, args)
        label = ''.join(map(str, w[0])) if all(isinstance(x, str) for x in w[0]) else '?'
        prove(f'{tag}: only the secrets just derived are written, once', label in want and label not in seen, label)
        if label not in want:
            continue
        seen.add(label)
        prove(f'{tag}: a line has three words', len(w) == 3)
        if len(w) == 3:
            prove(f'{tag}: {label} is identified by the random of the client', is_hex(w[1], random))
            prove(f'{tag}: {label} has the value of the secret', is_hex(w[2], want[label]))
    prove(f'{tag}: every traffic secret derived is written', set(want) - OPTIONAL <= seen, str(seen))


def suite(number):
    def f():
        models.install_key_logger()
        side = choose(['client', 'server'])
        on = choose([True, False])
        c = new_suite(number, side, log_keys=on)
        cu = bvar('client_unique', 32)
        z = SIZES[SUITES[number][0]][0]
        shared, t1, t2, t3, t0 = bvar('shared key'), bvar('t1', z), bvar('t2', z), bvar('t3', z), bvar('t0', z)
        early = choose([False, True])
        psk = bvar('psk') if early else None
        sch = Schedule(number, shared, t1, t2, t3, psk, t0)
        check('creation', on, {}, cu)
        if early:
            c.derive_early_secrets(psk, choose(['external', 'resume']), t0)
            check('early', on, {'CLIENT_EARLY_TRAFFIC_SECRET': sch.c_e, 'EARLY_EXPORTER_SECRET': sch.e_exp}, cu)
        else:
            c.skip_early_secrets()
            check('early', on, {}, cu)
        c.derive_handshake_secrets(shared, t1)
        check('handshake', on, {'CLIENT_HANDSHAKE_TRAFFIC_SECRET': sch.c_hs, 'SERVER_HANDSHAKE_TRAFFIC_SECRET': sch.s_hs}, cu)
        attempt(c.sign_finish, t2)
        attempt(c.verify_finish, t2, bvar('verify data'))
        attempt(c.encrypt, bvar('data'), bvar('header', 5))
        attempt(c.decrypt, bvar('record'), bvar('header', 5))
        c.should_rekey, c.must_encrypt, c.must_decrypt, c.state
        check('use', on, {}, cu)
        c.derive_master_secrets(t2, t3)
        check('application', on, {'CLIENT_TRAFFIC_SECRET_0': sch.c_ap, 'SERVER_TRAFFIC_SECRET_0': sch.s_ap,
                                  'EXPORTER_SECRET': sch.exp}, cu)
        cover('logged' if on else 'silent')
    return f


for _n in SUITES:
    TASKS.append(Task(f'log of {_n:#06x}', suite(_n), cost=5))
