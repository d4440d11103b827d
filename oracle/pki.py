"""Keys and certificates for the oracles, made once per process (in memory only)."""
import datetime
import functools
import ipaddress
from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed25519, ed448, rsa
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
from cryptography.x509.oid import NameOID, ExtendedKeyUsageOID


@functools.cache
def key(kind, n=0):
    return {'ed25519': ed25519.Ed25519PrivateKey.generate, 'ed448': ed448.Ed448PrivateKey.generate,
            'p256': lambda: ec.generate_private_key(ec.SECP256R1()),
            'p384': lambda: ec.generate_private_key(ec.SECP384R1()),
            'p521': lambda: ec.generate_private_key(ec.SECP521R1()),
            'rsa': lambda: rsa.generate_private_key(65537, 2048)}[kind]()


def alt(host):
    try:
        return x509.IPAddress(ipaddress.ip_address(host))
    except ValueError:
        return x509.DNSName(host)


def name(cn): return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)])


def digest(k):
    return None if isinstance(k, (ed25519.Ed25519PrivateKey, ed448.Ed448PrivateKey)) else hashes.SHA256()


@functools.cache
def ca(cn='test ca', kind='p256', n=0):
    k = key(kind, 1000 + n)
    now = datetime.datetime.now(datetime.timezone.utc)
    c = (x509.CertificateBuilder().subject_name(name(cn)).issuer_name(name(cn)).public_key(k.public_key())
         .serial_number(x509.random_serial_number()).not_valid_before(now - datetime.timedelta(days=2))
         .not_valid_after(now + datetime.timedelta(days=30))
         .add_extension(x509.BasicConstraints(ca=True, path_length=None), True)
         .add_extension(x509.KeyUsage(False, False, False, False, False, True, True, False, False), True)
         .add_extension(x509.SubjectKeyIdentifier.from_public_key(k.public_key()), False)
         .sign(k, digest(k)))
    return c, k


@functools.cache
def leaf(host='example.com', kind='p256', issuer=None, n=0, days=(-1, 10), eku=ExtendedKeyUsageOID.SERVER_AUTH):
    """(certificate, private key)"""
    cc, ck = ca(*(issuer or ()))
    k = key(kind, n)
    now = datetime.datetime.now(datetime.timezone.utc)
    c = (x509.CertificateBuilder().subject_name(name(host)).issuer_name(cc.subject).public_key(k.public_key())
         .serial_number(x509.random_serial_number()).not_valid_before(now + datetime.timedelta(days=days[0]))
         .not_valid_after(now + datetime.timedelta(days=days[1]))
         .add_extension(x509.SubjectAlternativeName([alt(host)]), False)
         .add_extension(x509.BasicConstraints(ca=False, path_length=None), True)
         .add_extension(x509.ExtendedKeyUsage([eku]), False)
         .add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(ck.public_key()), False)
         .sign(ck, digest(ck)))
    return c, k


def der(c): return c.public_bytes(Encoding.DER)
def spki(k): return k.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)


def crl(serials, issuer=None):
    """a revocation list with those serial numbers"""
    cc, ck = ca(*(issuer or ()))
    now = datetime.datetime.now(datetime.timezone.utc)
    b = (x509.CertificateRevocationListBuilder().issuer_name(cc.subject).last_update(now - datetime.timedelta(days=1))
         .next_update(now + datetime.timedelta(days=5)))
    for n in serials:
        b = b.add_revoked_certificate(x509.RevokedCertificateBuilder().serial_number(n).revocation_date(now).build())
    return b.sign(ck, digest(ck))


def status(cert, issuer_cert, key, good=True, this=-1, next_=5, unknown=False, successful=True, algorithm=hashes.SHA1):
    """an OCSP response, DER; this and next_ in hours from now (next_ None: absent)"""
    from cryptography.x509 import ocsp
    if not successful:
        return ocsp.OCSPResponseBuilder.build_unsuccessful(ocsp.OCSPResponseStatus.TRY_LATER).public_bytes(Encoding.DER)
    now = datetime.datetime.now(datetime.timezone.utc).replace(microsecond=0, tzinfo=None)
    st = ocsp.OCSPCertStatus.UNKNOWN if unknown else ocsp.OCSPCertStatus.GOOD if good else ocsp.OCSPCertStatus.REVOKED
    b = ocsp.OCSPResponseBuilder().add_response(
        cert=cert, issuer=issuer_cert, algorithm=algorithm(), cert_status=st, this_update=now + datetime.timedelta(hours=this),
        next_update=None if next_ is None else now + datetime.timedelta(hours=next_),
        revocation_time=None if st != ocsp.OCSPCertStatus.REVOKED else now - datetime.timedelta(days=1), revocation_reason=None)
    return b.responder_id(ocsp.OCSPResponderEncoding.HASH, issuer_cert).sign(key, digest(key)).public_bytes(Encoding.DER)
