"""
Host names, e-mail addresses, URIs and IP addresses put together from pieces whose encoding
is known (RFC 3490, RFC 3986, RFC 3987), so that the encoded and the decoded form of the
whole are known without asking the library.
"""
import struct

# (as written, as encoded, as decoded)
LABELS = [
    ('example', 'example', 'example'), ('WWW', 'WWW', 'WWW'), ('a', 'a', 'a'), ('b-C', 'b-C', 'b-C'), ('COM', 'COM', 'COM'),
    ('org', 'org', 'org'), ('x1', 'x1', 'x1'), ('m\xfcnchen', 'xn--mnchen-3ya', 'm\xfcnchen'),
    ('\u4f8b\u3048', 'xn--r8jz45g', '\u4f8b\u3048'), ('B\xdccher', 'xn--bcher-kva', 'b\xfccher'),
    ('xn--mnchen-3ya', 'xn--mnchen-3ya', 'm\xfcnchen'), ('caf\xe9', 'xn--caf-dma', 'caf\xe9'),
    ('y' * 63, 'y' * 63, 'y' * 63),
]
PATHS = [
    ('a', 'a', 'a'), ('B', 'B', 'B'), ('x.crl', 'x.crl', 'x.crl'), ('\xe9', '%C3%A9', '\xe9'), ('~u', '~u', '~u'),
    ('\u4e2d', '%E4%B8%AD', '\u4e2d'), ('a=b', 'a=b', 'a=b'), ('c:d@e', 'c:d@e', 'c:d@e'), ('(1)!', '(1)!', '(1)!'),
    ('%2f', '%2f', '%2f'), ('%ff', '%ff', '%ff'), ('', '', ''), ('\U0001f600', '%F0%9F%98%80', '\U0001f600'),
]
QUERIES = [('x=1&y=2', 'x=1&y=2', 'x=1&y=2'), ('q=\xe9', 'q=%C3%A9', 'q=\xe9'), ('Z', 'Z', 'Z'), ('a=%26b', 'a=%26b', 'a=%26b'),
           ('/?', '/?', '/?')]
FRAGMENTS = [('top', 'top', 'top'), ('\xe9', '%C3%A9', '\xe9'), ('S2', 'S2', 'S2')]
V6 = ['::1', '2001:db8::1', 'fe80::1:2:3:4', '::', '1:2:3:4:5:6:7:8', 'ff02::fb', '2001:db8:0:1::', '::ffff:1.2.3.4']


def _host(rng, lower):
    n = rng.choice([1, 2, 2, 3, 4])
    got = [rng.choice(LABELS) for _ in range(n)]
    out = ['.'.join(x[i] for x in got) for i in range(3)]
    if lower:
        out = [out[0], out[1].lower(), out[2].lower()]
    return out


def dns(rng):
    t, e, d = _host(rng, False)
    pre = rng.choice(['', '', '', '.', '*.'])
    if pre == '*.' and rng.random() < 0.5:
        pre = ''
    return [pre + t, (pre + e).encode('ascii'), pre + d]


def email(rng):
    if rng.random() < 0.1:
        x = rng.choice(['root', 'Post.Master', ''])
        return [x, x.encode('ascii'), x]
    t, e, d = _host(rng, False)
    box = rng.choice(['joe', 'Joe', 'a.B', 'x+y', '"q"', 'a@b'])
    return [box + '@' + t, (box + '@' + e).encode('ascii'), box + '@' + d]


def uri(rng):
    scheme = rng.choice(['http', 'https', 'ldap', 'ftp', 'HTTP'])
    r = rng.random()
    if r < 0.15:
        ip = rng.choice(V6)
        host = ['[' + ip + ']'] * 3
    elif r < 0.25:
        host = ['10.0.0.1'] * 3
    else:
        host = _host(rng, True)
    user = rng.choice(['', '', '', 'user@', 'u:p@'])
    port = rng.choice(['', '', '', ':8080', ':80', ':443', ':65535'])
    out = [scheme + '://' + user + host[0] + port] + [scheme.lower() + '://' + user + h + port for h in host[1:]]

    def more(text):
        for i in range(3):
            out[i] += text[i]
    if rng.random() < 0.8:
        for _ in range(rng.choice([1, 1, 2, 3])):
            more(['/'] * 3)
            more(rng.choice(PATHS))
    if rng.random() < 0.3:
        more(['?'] * 3)
        more(rng.choice(QUERIES))
    if rng.random() < 0.3:
        more(['#'] * 3)
        more(rng.choice(FRAGMENTS))
    if '//' in out[0][out[0].index('://') + 3:]:
        # an empty path segment: not every Python keeps those apart from a host
        return uri(rng)
    return [out[0], out[1].encode('ascii'), out[2]]


def _v6_bytes(text):
    if '.' in text:
        return b'\0' * 10 + b'\xff\xff' + bytes(int(x) for x in text.rsplit(':', 1)[1].split('.'))
    if '::' in text:
        a, b = text.split('::')
        a = a.split(':') if a else []
        b = b.split(':') if b else []
        words = a + ['0'] * (8 - len(a) - len(b)) + b
    else:
        words = text.split(':')
    return struct.pack('>8H', *[int(w, 16) for w in words])


def ip(rng):
    if rng.random() < 0.5:
        parts = [rng.choice([0, 1, 10, 127, 128, 192, 255, rng.randrange(256)]) for _ in range(4)]
        text, raw, width = '.'.join(map(str, parts)), bytes(parts), 32
    else:
        text = rng.choice(V6)
        raw, width = _v6_bytes(text), 128
    if rng.random() < 0.5:
        bits = rng.choice([1, 7, 8, 9, 16, 24, 31, width - 1, width, width // 2, rng.randint(1, width)])
        raw += (((1 << bits) - 1) << (width - bits)).to_bytes(width // 8, 'big')
        text += '/%d' % bits
    return [text, raw, text]


KINDS = {'x509.DNSName': dns, 'x509.EmailAddress': email, 'x509.URI': uri, 'x509.IPAddress': ip}


def gen(rng):
    cls = rng.choice(sorted(KINDS))
    text, raw, nat = KINDS[cls](rng)
    return [cls, text, raw.hex(), nat]


# stored forms that are not the normal ones, so that normalising them in place would show
ODD = {
    'x509.EmailAddress': [b'Joe@XN--MNCHEN-3YA.example', b'joe@xn--Bcher-KVA.COM', b'J\xe9r\xf4me@example.org', b'plain', b'a@b@C.org',
                          b'joe@EXAMPLE.org', b'\xe9', b'a@xn--zzzz--', b'@', b'a@.', b'a@b..c'],
    'x509.DNSName': [b'XN--MNCHEN-3YA.de', b'.Example.COM', b'*.XN--caf-DMA.fr', b'', b'.', b'a..b', b'WWW.example.', b'\xe9.org',
                     b'xn--zz--zz.org'],
    'x509.URI': [b'HTTP://Example.ORG:80/%7euser', b'http://XN--MNCHEN-3YA.de', b'https://a.b:443', b'ldap://h/o=%c3%a9?x', b'mailto:a@b',
                 b'http://[::1]:80/', b'urn:x:%00', b'', b'http://h/%E9', b'//h', b'http://u%40@h:8080/?#', b'http://[bad'],
    'x509.IPAddress': [b'\x7f\0\0\1', b'\x0a\0\0\0\xff\0\0\0', b'\x0a\0\0\0\xff\0\xff\0', b'\0' * 16, b'\0' * 10 + b'\xff\xff\1\2\3\4',
                       b'\x20\1' + b'\0' * 14 + b'\xff' * 8 + b'\0' * 8, b'\0' * 5, b'', b'\xff' * 32, b'\0' * 8],
}
OTHER_TAGS = {'x509.EmailAddress': [12, 19], 'x509.DNSName': [19]}
GENERAL = {'x509.EmailAddress': 1, 'x509.DNSName': 2, 'x509.URI': 6, 'x509.IPAddress': 7}


def odd(rng):
    """-> class, encoding: one stored name, or several as general names"""
    from . import ber
    cls = rng.choice(sorted(ODD))
    if rng.random() < 0.5:
        tag = 4 if cls == 'x509.IPAddress' else 22
        if cls in OTHER_TAGS and rng.random() < 0.4:
            tag = rng.choice(OTHER_TAGS[cls])
        return cls, ber.tlv(0, 0, tag, rng.choice(ODD[cls]))
    body = b''
    for _ in range(rng.randint(1, 4)):
        body += ber.tlv(2, 0, GENERAL[cls], rng.choice(ODD[cls]))
        if rng.random() < 0.4:
            cls = rng.choice(sorted(ODD))
    body = ber.tlv(0, 1, 16, body)
    if rng.random() < 0.3:
        return 'x509.Certificate', certificate(body)
    return 'x509.GeneralNames', body


def certificate(body):
    """A certificate that has these general names"""
    from . import ber
    alg = b'\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00'
    day = ber.tlv(0, 0, 23, b'200101000000Z')
    key = ber.tlv(0, 1, 16, b'\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00' +
                  b'\x03\x09\x00\x30\x06\x02\x01\x0f\x02\x01\x03')
    ext = ber.tlv(0, 1, 16, b'\x06\x03\x55\x1d\x11' + ber.tlv(0, 0, 4, body))
    tbs = (b'\xa0\x03\x02\x01\x02\x02\x01\x07' + alg + b'\x30\x00' + ber.tlv(0, 1, 16, day + day) + b'\x30\x00' + key +
           ber.tlv(2, 1, 3, ber.tlv(0, 1, 16, ext)))
    return ber.tlv(0, 1, 16, ber.tlv(0, 1, 16, tbs) + alg + b'\x03\x02\x00\x01')
