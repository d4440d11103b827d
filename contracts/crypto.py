"""What RFC 8446 section 7 prescribes, written without looking at the code."""
from pyvc.harness import *
from pyvc import models
from pyvc.models import mac, hash_of, SIZES, recorder

# B.4 and the AEAD algorithms of RFC 5116, 6655, 7539: (hash, AEAD, key, nonce, tag)
SUITES = {
    0x1301: ('sha256', 'AESGCM', 16, 12, 16),
    0x1302: ('sha384', 'AESGCM', 32, 12, 16),
    0x1303: ('sha256', 'ChaCha20Poly1305', 32, 12, 16),
    0x1304: ('sha256', 'AESCCM', 16, 12, 16),
    0x1305: ('sha256', 'AESCCM', 16, 12, 8),
}


def u(n, v):
    return int(v).to_bytes(n, 'big')


def zeros(h):
    return bytes(SIZES[h][0])


def expand(h, prk, info, length):
    t, out = b'', b''
    i = 1
    while True:
        t = mac(h, prk, concat(t, info, u(1, i)))
        out = concat(out, t)
        if i * SIZES[h][0] >= length:
            return bslice(out, 0, length)
        i += 1


def expand_label(h, secret, label, context, length):
    label = b'tls13 ' + label
    n = blen(context)
    info = concat(u(2, length), u(1, len(label)), label, u(1, n), context)
    return expand(h, secret, info, length)


def derive(h, secret, label, th):
    return expand_label(h, secret, label, th, SIZES[h][0])


def empty(h):
    return hash_of(h, b'')


class Schedule:
    """all of the secrets of one connection"""
    def __init__(self, suite, shared, th_sh, th_sf, th_cf, psk=None, th_ch=None):
        self.suite = suite
        h, self.aead, self.key_len, self.iv_len, self.tag = SUITES[suite]
        self.h = h
        early = mac(h, b'', zeros(h) if psk is None else psk)
        if psk is not None:
            self.binder = {m: derive(h, early, l, empty(h)) for m, l in
                           (('external', b'ext binder'), ('resume', b'res binder'))}
            self.c_e = derive(h, early, b'c e traffic', th_ch)
            self.e_exp = derive(h, early, b'e exp master', th_ch)
        hs = mac(h, derive(h, early, b'derived', empty(h)), shared)
        self.c_hs = derive(h, hs, b'c hs traffic', th_sh)
        self.s_hs = derive(h, hs, b's hs traffic', th_sh)
        master = mac(h, derive(h, hs, b'derived', empty(h)), zeros(h))
        self.c_ap = derive(h, master, b'c ap traffic', th_sf)
        self.s_ap = derive(h, master, b's ap traffic', th_sf)
        self.exp = derive(h, master, b'exp master', th_sf)
        self.res = derive(h, master, b'res master', th_cf)
        self.c_fin = expand_label(h, self.c_hs, b'finished', b'', SIZES[h][0])
        self.s_fin = expand_label(h, self.s_hs, b'finished', b'', SIZES[h][0])

    def key_iv(self, secret):
        return (expand_label(self.h, secret, b'key', b'', self.key_len),
                expand_label(self.h, secret, b'iv', b'', self.iv_len))

    def finished(self, side, th):
        return mac(self.h, self.c_fin if side == 'client' else self.s_fin, th)


def nonce_of(iv, n):
    """iv exclusive-or n, on its length"""
    k = blen(iv)
    return mkbytes((sym.be(zi(sym.sxor(sym.mkint(sym.int_of_rope(rope_of(iv))), n)), k),))


def new_suite(number, side, log_keys=False):
    from siotls.crypto.ciphers import TLSCipherSuite
    from siotls.iana import CipherSuites
    cu = bvar('client_unique', 32)
    return TLSCipherSuite[CipherSuites(number)](side, cu, log_keys=log_keys)


def protects(tag, c, sch, secret, n=0, aad_len=5):
    """the next record sent is protected with the key and IV derived from secret, as the n-th under them"""
    key, iv = sch.key_iv(secret)
    d, a = bvar(f'{tag} data'), bvar(f'{tag} header', aad_len)
    recorder().seals = []
    got, e = attempt(c.encrypt, d, a)
    prove(f'{tag}: a record can be protected', e is None, exc_name(e))
    used(tag, recorder().seals, sch, key, iv, n, d, a)
    if e is None:
        prove(f'{tag}: the record is what the AEAD made', beq(got, models.seal(models.VAead(sch.aead, key, sch.tag),
                                                                           nonce_of(iv, n), d, a)))


def accepts(tag, c, sch, secret, n=0, aad_len=5):
    """the next record received is opened with the key and IV derived from secret"""
    key, iv = sch.key_iv(secret)
    d, a = bvar(f'{tag} data'), bvar(f'{tag} header', aad_len)
    sealed = models.seal(models.VAead(sch.aead, key, sch.tag), nonce_of(iv, n), d, a)
    recorder().opens = []
    got, e = attempt(c.decrypt, sealed, a)
    used(tag, recorder().opens, sch, key, iv, n, sealed, a)
    prove(f'{tag}: the record of the other side is opened', e is None, exc_name(e))
    if e is None:
        prove(f'{tag}: its plaintext is recovered', beq(got, d))


def used(tag, calls, sch, key, iv, n, data, aad):
    prove(f'{tag}: the AEAD is used once', len(calls) == 1)
    if len(calls) != 1:
        return
    a, nonce, dd, aa = calls[0]
    prove(f'{tag}: the AEAD is that of the suite', a.alg == sch.aead and a.tag == sch.tag, f'{a.alg} {a.tag}')
    prove(f'{tag}: the key is the one prescribed', beq(a.key, key))
    prove(f'{tag}: the nonce is the one prescribed', beq(nonce, nonce_of(iv, n)))
    prove(f'{tag}: data and header are given to the AEAD', And(beq(dd, data), beq(aa, aad)))


def other(side):
    return 'server' if side == 'client' else 'client'
