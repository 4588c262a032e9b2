"""
An independent BER/DER writer and reader (shares no code with asn1crypto).
Used as an oracle: what bytes a value must have, where a value ends.
"""


def tag_bytes(cls, cons, tag):
    first = (cls << 6) | (0x20 if cons else 0)
    if tag < 31:
        return bytes([first | tag])
    out = [tag & 0x7f]
    tag >>= 7
    while tag:
        out.append(0x80 | (tag & 0x7f))
        tag >>= 7
    return bytes([first | 31]) + bytes(reversed(out))


def len_bytes(n, form=None):
    """form: None for DER; an int k for a long form with k octets (when it fits)"""
    if form is None:
        if n < 128:
            return bytes([n])
        b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
        return bytes([0x80 | len(b)]) + b
    need = max(1, (n.bit_length() + 7) // 8)
    k = max(need, form)
    return bytes([0x80 | k]) + n.to_bytes(k, 'big')


def tlv(cls, cons, tag, contents, form=None):
    """form 'indef' writes an indefinite-length value"""
    if form == 'indef':
        return tag_bytes(cls, True, tag) + b'\x80' + contents + b'\x00\x00'
    return tag_bytes(cls, cons, tag) + len_bytes(len(contents), form) + contents


class Short(Exception):
    pass


class Bad(Exception):
    pass


def header(data, pos):
    """-> (cls, cons, tag, length or None, position after the header)"""
    n = len(data)
    if pos >= n:
        raise Short()
    first = data[pos]
    pos += 1
    tag = first & 31
    if tag == 31:
        tag = 0
        first_num = True
        while True:
            if pos >= n:
                raise Short()
            b = data[pos]
            pos += 1
            if first_num and b == 0x80:
                raise Bad('padded tag')
            first_num = False
            tag = (tag << 7) | (b & 0x7f)
            if not b & 0x80:
                break
        if tag < 31:
            raise Bad('short tag in long form')
    if pos >= n:
        raise Short()
    lo = data[pos]
    pos += 1
    if lo < 128:
        length = lo
    elif lo == 128:
        length = None
        if not first & 0x20:
            raise Bad('primitive indefinite')
    else:
        k = lo & 0x7f
        if pos + k > n:
            raise Short()
        length = int.from_bytes(data[pos:pos + k], 'big')
        pos += k
    return first >> 6, (first >> 5) & 1, tag, length, pos


def end_of(data, pos=0):
    """Position just past the value that starts at pos; Short if cut off"""
    cls, cons, tag, length, pos = header(data, pos)
    if length is not None:
        if pos + length > len(data):
            raise Short()
        return pos + length
    while True:
        if data[pos:pos + 2] == b'\x00\x00':
            return pos + 2
        if pos >= len(data):
            raise Short()
        pos = end_of(data, pos)


def split(data, pos=0):
    """-> (cls, cons, tag, header bytes, contents bytes, trailer bytes, end)"""
    cls, cons, tag, length, cpos = header(data, pos)
    end = end_of(data, pos)
    if length is None:
        return cls, cons, tag, data[pos:cpos], data[cpos:end - 2], data[end - 2:end], end
    return cls, cons, tag, data[pos:cpos], data[cpos:end], b'', end


def int_contents(v, pad=0):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return v.to_bytes(n + pad, 'big', signed=True)


def uint_contents(v):
    return v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'big')


def oid_contents(dotted):
    p = [int(x) for x in dotted.split('.')]
    out = b''
    for n in [p[0] * 40 + p[1]] + p[2:]:
        chunk = [n & 0x7f]
        n >>= 7
        while n:
            chunk.append(0x80 | (n & 0x7f))
            n >>= 7
        out += bytes(reversed(chunk))
    return out


def bits_contents(bits):
    """bits: a str of 0/1"""
    pad = -len(bits) % 8
    b = bits + '0' * pad
    return bytes([pad]) + bytes(int(b[i:i + 8], 2) for i in range(0, len(b), 8))


def walk_spans(data, pos=0, end=None, depth=0, out=None):
    """Start offsets and header/contents spans of all nested values (best effort)"""
    if out is None:
        out = []
    if end is None:
        end = len(data)
    while pos < end and len(out) < 4000:
        try:
            cls, cons, tag, hb, cb, tb, nxt = split(data[:end], pos)
        except (Short, Bad, RecursionError):
            break
        out.append((pos, pos + len(hb), nxt, depth, cons, cls, tag))
        if cons and depth < 40:
            walk_spans(data, pos + len(hb), nxt - len(tb), depth + 1, out)
        elif tag in (3, 4) and cls == 0 and len(cb) > 2 and depth < 40:
            s = pos + len(hb) + (1 if tag == 3 else 0)
            try:
                if s < nxt and data[s] in (0x30, 0x31, 0x04, 0x03, 0x02, 0xa0) and end_of(data[:nxt], s) == nxt:
                    walk_spans(data, s, nxt, depth + 1, out)
            except (Short, Bad, RecursionError):
                pass
        pos = nxt
    return out
