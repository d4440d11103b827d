"""Contracts of what lies outside of /repo."""
import z3
from . import core, sym, rt
from .core import ctx, Unsupported
from .rt import model, call, METHODS
from .sym import SymStr, SymBytes, bvar, rope_of, mkbytes, isbytes, atom, source_of, decoded

import idna


@model(idna.encode)
def m_idna_encode(s, **k):
    s = rt.desym(s)
    if not isinstance(s, SymStr):
        return idna.encode(s, **k)
    return bvar(f'idna({s.label})', idx=s.idx)


@model(idna.decode)
def m_idna_decode(b, **k):
    b = rt.desym(b)
    if not isinstance(b, SymBytes):
        return idna.decode(b, **k)
    s = source_of(b, 'idna(')
    if s is not None:
        return s
    if not ctx().branch(atom('idna', b).c):
        if ctx().choose(2):
            raise UnicodeError('idna')
        raise idna.IDNAError('idna')
    return decoded(b, 'idnadec')


# -- keys and certificates: known by name, with their DER encodings -----------------------------------------

from cryptography import x509
from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat, load_der_public_key
from .sym import Opaque, lazy
from .rt import desym


def source_named(b, prefix):
    s = source_of(b, prefix)
    return (s.label, s.idx) if s is not None else None


def name_of(b, how):
    """name and indices of the object decoded from the bytes b"""
    text, terms = sym.sig(b)
    return f'{how}({text})', terms


def cert(name, idx=()):
    return Opaque('cert', name, idx, public_bytes=lazy(lambda o: lambda enc: cert_der(o, enc)),
                  public_key=lazy(lambda o: lambda: pubkey(f'key of {o.oname}', o.idx)))


def cert_der(o, enc):
    if enc != Encoding.DER:
        raise Unsupported(f'encoding {enc}')
    return bvar(f'der({o.oname})', idx=o.idx)


def pubkey(name, idx=(), **attrs):
    return Opaque('pubkey', name, idx, public_bytes=lazy(lambda o: lambda enc, fmt: spki(o, enc, fmt)), **attrs)


def spki(o, enc, fmt):
    if enc != Encoding.DER or fmt != PublicFormat.SubjectPublicKeyInfo:
        raise Unsupported(f'encoding {enc} {fmt}')
    return bvar(f'spki({o.oname})', idx=o.idx)


@model(x509.load_der_x509_certificate)
def m_load_cert(data, backend=None):
    data = desym(data)
    n = source_named(SymBytes(rope_of(data)), 'der(')
    if n is not None:
        return cert(*n)
    if not bool(atom('certificate', data)):
        raise ValueError('error parsing asn1 value')
    return cert(*name_of(data, 'cert'))


@model(load_der_public_key)
def m_load_key(data, backend=None):
    data = desym(data)
    n = source_named(SymBytes(rope_of(data)), 'spki(')
    if n is not None:
        return pubkey(*n)
    if not bool(atom('public key', data)):
        raise ValueError('could not deserialize key data')
    if not bool(atom('public key of a supported kind', data)):
        raise UnsupportedAlgorithm('unsupported')
    return pubkey(*name_of(data, 'pubkey'))


# -- hashes, HMAC, AEAD: uninterpreted functions of their inputs --------------------------------------------

import hashlib
import hmac
import secrets
from cryptography.exceptions import InvalidTag
from cryptography.hazmat.primitives.ciphers import aead

SIZES = {'sha1': (20, 64), 'sha224': (28, 64), 'sha256': (32, 64), 'sha384': (48, 128), 'sha512': (64, 128)}


class VHash:
    __vc_ok__ = True
    __vc_copy__ = True

    def __init__(self, name, rope=()):
        self.name, self._rope = name, rope
        self.digest_size, self.block_size = SIZES[name]

    def update(self, data):
        self._rope = sym.norm(self._rope + rope_of(desym(data)))

    def digest(self):
        return hash_of(self.name, mkbytes(self._rope))

    def hexdigest(self):
        return sym.SymHex(SymBytes(rope_of(self.digest())))

    def copy(self):
        return VHash(self.name, self._rope)


def hash_of(name, data):
    if not isinstance(data, sym.Sym):
        return hashlib.new(name, bytes(data)).digest()
    return sym.bapp(name, (data,), SIZES[name][0])


def hash_model(name):
    def m(data=b'', *, usedforsecurity=True):
        return VHash(name, sym.norm(rope_of(desym(data))))
    return m


for _n in SIZES:
    rt.MODELS[getattr(hashlib, _n)] = hash_model(_n)


@model(hashlib.new)
def m_hash_new(name, data=b'', **k):
    return VHash(name, sym.norm(rope_of(desym(data))))


def digest_name(d):
    if isinstance(d, str):
        return d.lower().replace('-', '')
    return call(d).name


def mac(name, key, msg):
    """HMAC; trailing zeros of a key are no part of its identity"""
    if not isinstance(key, sym.Sym) and len(key) <= SIZES[name][1]:
        key = bytes(key).rstrip(b'\x00')
    if not isinstance(key, sym.Sym) and not isinstance(msg, sym.Sym):
        return hmac.digest(bytes(key), bytes(msg), name)
    return sym.bapp('hmac-' + name, (key, msg), SIZES[name][0])


@model(hmac.digest)
def m_hmac_digest(key, msg, digest):
    return mac(digest_name(digest), desym(key), desym(msg))


class VHmac:
    __vc_ok__ = True

    def __init__(self, key, name, rope):
        self.key, self.name, self._rope = key, 'hmac-' + name, rope
        self._n = name
        self.digest_size, self.block_size = SIZES[name]

    def update(self, data):
        self._rope = sym.norm(self._rope + rope_of(desym(data)))

    def digest(self):
        return mac(self._n, self.key, mkbytes(self._rope))

    def hexdigest(self):
        return sym.SymHex(SymBytes(rope_of(self.digest())))

    def copy(self):
        return VHmac(self.key, self._n, self._rope)


@model(hmac.new)
def m_hmac_new(key, msg=None, digestmod=''):
    return VHmac(desym(key), digest_name(digestmod), sym.norm(rope_of(desym(msg))) if msg is not None else ())


@model(hmac.compare_digest)
def m_compare(a, b):
    a, b = desym(a), desym(b)
    if not isbytes(a) or not isbytes(b):
        raise TypeError('unsupported operand types')
    r = sym.rope_eq(rope_of(a), rope_of(b))
    return r if isinstance(r, bool) else sym.mkbool(r)


@model(secrets.token_bytes)
def m_token(n=32):
    k = ctx().ghost.setdefault('tokens', [])
    k.append(bvar(f'random{len(k)}', n))
    return k[-1]


class Recorder:
    """calls of the AEAD since the harness last looked"""
    __vc_state__ = True

    def __init__(self):
        self.seals = []
        self.opens = []


def recorder():
    g = ctx().ghost
    if 'aead' not in g:
        g['aead'] = Recorder()
    return g['aead']


class VAead:
    __vc_ok__ = True

    def __init__(self, alg, key, tag):
        self.alg, self.key, self.tag = alg, key, tag

    def check(self, nonce):
        n = sym.simp(rlen_(nonce))
        if not isinstance(n, int):
            raise Unsupported('nonce of a symbolic length')
        if self.alg == 'ChaCha20Poly1305' and n != 12 or self.alg == 'AESGCM' and not 8 <= n <= 128 \
                or self.alg == 'AESCCM' and not 7 <= n <= 13:
            raise ValueError('nonce length')

    def encrypt(self, nonce, data, aad):
        nonce, data, aad = desym(nonce), desym(data), desym(aad)
        self.check(nonce)
        recorder().seals = [(self, nonce, data, aad)]
        ctx().ghost['n_seals'] = ctx().ghost.get('n_seals', 0) + 1
        hook = ctx().ghost.get('on_seal')
        if hook:
            hook(self, nonce, data, aad)
        return seal(self, nonce, data, aad)

    def decrypt(self, nonce, data, aad):
        nonce, data, aad = desym(nonce), desym(data), desym(aad)
        self.check(nonce)
        recorder().opens = [(self, nonce, data, aad)]
        ctx().ghost['n_opens'] = ctx().ghost.get('n_opens', 0) + 1
        hook = ctx().ghost.get('on_open')
        if hook:
            hook(self, nonce, data, aad)
        return unseal(self, nonce, data, aad)


def rlen_(b):
    return sym.rlen(rope_of(b))


def seal(a, nonce, data, aad):
    key = (a.alg, a.tag, a.key, nonce, data, '' if aad is None else aad)
    n = sym.simp(sym.nz(rlen_(data)) + a.tag)
    return sym.bapp('seal', key, n)


def beq_(x, y):
    if not isbytes(x) or not isbytes(y):
        return (not isbytes(x) or not sym.simp(rlen_(x))) and (not isbytes(y) or not sym.simp(rlen_(y)))
    return sym.rope_eq(rope_of(x), rope_of(y))


def unseal(a, nonce, data, aad):
    """the plaintext when data was sealed with the same key, nonce and header; else refused, or for data of unknown
    origin any plaintext of that length"""
    c = ctx()
    aad = '' if aad is None else aad
    tab = c.tables.get('app', {}).get('seal', [])
    for (alg, tag, key, nn, plain, ad), res in tab:
        if sym.val_must_eq(res, data):
            if alg == a.alg and tag == a.tag:
                same = [beq_(p, q) for p, q in ((key, a.key), (nn, nonce), (ad, aad))]
                if False not in same and c.branch(z3.And([x for x in same if x is not True])):
                    return plain
            if c.ghost.get('unforgeable', True):
                raise InvalidTag
    n = sym.simp(sym.nz(rlen_(data)) - a.tag)
    if not c.branch(sym.nz(n) >= 0):
        raise InvalidTag
    if not bool(atom('authentic', a.alg, a.key, nonce, data, aad)):
        raise InvalidTag
    return sym.bapp('unseal', (a.alg, a.tag, a.key, nonce, data, aad), n)


def aead_model(alg, lengths):
    def m(key, tag_length=16):
        key = desym(key)
        n = sym.simp(rlen_(key))
        if isinstance(n, int) and n not in lengths:
            raise ValueError('key length')
        return VAead(alg, key, tag_length)
    return m


rt.MODELS[aead.AESGCM] = aead_model('AESGCM', (16, 24, 32))
rt.MODELS[aead.AESCCM] = aead_model('AESCCM', (16, 24, 32))
rt.MODELS[aead.ChaCha20Poly1305] = aead_model('ChaCha20Poly1305', (32,))


# -- the key log ---------------------------------------------------------------------------------------

def install_key_logger():
    import siotls

    def write(fmt, *args, **k):
        ctx().ghost.setdefault('keylog', []).append((fmt, args))
    for n in ('debug', 'info', 'warning', 'error', 'critical', 'exception'):
        rt.MODELS[getattr(siotls.key_logger, n)] = write
    rt.MODELS[siotls.key_logger.log] = lambda level, fmt, *args, **k: write(fmt, *args, **k)


def log_line(fmt, args):
    """the text of a line, as a list of constant and symbolic pieces"""
    if not isinstance(fmt, str):
        raise Unsupported('key log format')
    out, i = [], 0
    parts = fmt.split('%s')
    if len(parts) != len(args) + 1 or '%' in ''.join(parts):
        if not args:
            return [fmt]
        raise Unsupported('key log format')
    for j, p in enumerate(parts):
        if p:
            out.append(p)
        if j < len(args):
            out.append(args[j])
    return out
