import json
F = """C06 41d2910 a record longer than the limit in force raised a bare exception instead of a record overflow alert
C05 1d8b55e an already aligned record got a whole chunk of padding, exceeding the size limits
C03 85a9e88 CertificateAuthorities was serialized without its extension header
C03 16c4d2a UseSRTP was serialized without its header and profiles length
C03 d53f5e7 the list of offered certificate types was not serialized
C03 d9a2e6b the selected certificate type serialized was not the one of the instance
C03 be5afd2 pre-shared key identities and binders were not serialized with their lengths
C03 3ea57c0 the server name extension announced the length of the unencoded host name
C02 80f7d19 Heartbeat.serialize raised
C01 062ad58 a nested length exceeding the enclosing one raised ValueError, not a buffer error
C04 0c0b2cd content type 0 raised TypeError
C04 6b7a7cc a message_hash handshake raised TypeError
C04 2576e15 an unknown certificate type escaped as ValueError
C04 918aab8 a legacy selected version escaped as a TypeError
C04 a3259ca an oversized heartbeat escaped as ValueError
C04 06fb315 a malformed certificate escaped as ValueError
C02 9551480 alerts that are not exceptions could not be compared nor printed
C13 3272f62 a record that cannot be deprotected was answered with internal_error, not bad_record_mac
C07 463f1f6 the AES-CCM suites had no usage limit
C12 9aa87ee a warning alert during the handshake was a clean closure
C13 a8d8f69 closing the receiving end revived a failed connection
C12 0507098 closing during the handshake made the connection connected
C12 e1e33f0 application data was sent under handshake keys
C13 c4c13ff a connection whose sending end is closed did not fail on an error
C15 dea382f more than one hello retry request was honoured
C15 fa3e16d the negotiated key exchange was not recorded client side
C09 8e4f87f the client transcript was wrong after a hello retry request
C10 e723ea3 the raw public key of the server was compared with the wrong object
C10 41c8119 the revocation list was searched by the wrong value
C10 d10a5e1 an invalid certificate verify signature was not answered with a decrypt error
C19 b753d4b bytes a partial send left over were lost
C17 29639c5 a negative content length read the whole response
C17 2357842 an OCSP response without next update raised TypeError
C17 a821639 a certificate without authority information access raised
C17 1597e52 an OCSP response with an invalid signature escaped as InvalidSignature
C06 6e8b038 a handshake fragmented over records was not reassembled for some cuts
C14 84e458d a server with only a raw public key could not negotiate a signature algorithm
C04 3bcba73 a malformed SRTP profile list escaped as ValueError
C01 af5aa08 read of a negative size went past the limit
C13 5ef78ed a warning alert of an unknown description was answered with internal_error
C13 05920b5 what followed a close_notify in the same buffer was answered with a fatal alert
C15 0f4ae2a a hello retry request that does not select TLS 1.3 was honoured
C14 af7acf1 an ECDSA signature algorithm could be selected for a key on another curve
C10 2a02c34 a certificate verify by a key of another kind or curve than its algorithm was accepted
C20 6a4314b a finite field share of another size than the prime was accepted
C20 0271be2 a compressed or hybrid elliptic curve point was accepted as a share
C17 15b05fe an OCSP response signed with an algorithm whose hash is not known escaped as UnsupportedAlgorithm"""
json.dump(dict(findings=json.load(open('/verif/tools/findings.json')),
               fixed=[f'fixed: property={l[:3]} {l[4:11]} {l[12:]}' for l in F.split('\n')]),
          open('/verif/known_findings.json', 'w'), indent=1)
