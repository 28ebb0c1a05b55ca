"""A small DER reader/writer of our own, so that mutations do not depend on the code under test."""


class Node:
    """tag byte(s), children (constructed) or content (primitive)."""

    __slots__ = ("tag", "kids", "data")

    def __init__(self, tag, kids=None, data=b""):
        self.tag, self.kids, self.data = tag, kids, data

    def encode(self):
        content = b"".join(k.encode() for k in self.kids) if self.kids is not None else self.data
        return self.tag + length(len(content)) + content

    def copy(self):
        return Node(self.tag, None if self.kids is None else [k.copy() for k in self.kids], self.data)

    def __getitem__(self, i):
        return self.kids[i]

    def find(self, tag):
        for k in self.kids:
            if k.tag == bytes([tag]):
                return k
        return None

    def leaves(self, path=()):
        if self.kids is None:
            yield path, self
        else:
            for i, k in enumerate(self.kids):
                yield from k.leaves(path + (i,))

    def at(self, path):
        n = self
        for i in path:
            n = n.kids[i]
        return n


def length(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([0x80 | len(b)]) + b


def read(data, pos=0):
    start = pos
    first = data[pos]
    pos += 1
    if first & 31 == 31:
        while data[pos] & 0x80:
            pos += 1
        pos += 1
    tag = data[start:pos]
    n = data[pos]
    pos += 1
    if n & 0x80:
        k = n & 0x7F
        n = int.from_bytes(data[pos : pos + k], "big")
        pos += k
    content = data[pos : pos + n]
    if len(content) != n:
        raise ValueError("truncated")
    end = pos + n
    if first & 0x20:
        kids, p = [], 0
        while p < len(content):
            kid, p = read(content, p)
            kids.append(kid)
        return Node(tag, kids), end
    return Node(tag, None, content), end


def parse(data):
    node, end = read(data)
    if end != len(data):
        raise ValueError("trailing data")
    return node


def integer(n):
    return Node(b"\x02", None, n.to_bytes(n.bit_length() // 8 + 1, "big", signed=True))


def octets(b):
    return Node(b"\x04", None, b)


def seq(*kids):
    return Node(b"\x30", list(kids))


def ctx(n, *kids):
    return Node(bytes([0xA0 | n]), list(kids))


# ---- PKIMessage access: header, body, [0] protection, [1] extraCerts --------------------------------
HEADER_TAG = {
    "messageTime": 0xA0,
    "protectionAlg": 0xA1,
    "senderKID": 0xA2,
    "recipKID": 0xA3,
    "transactionID": 0xA4,
    "senderNonce": 0xA5,
    "recipNonce": 0xA6,
    "freeText": 0xA7,
    "generalInfo": 0xA8,
}


class Pki:
    """A PKIMessage as a DER tree."""

    def __init__(self, der):
        self.top = parse(der)
        self.header, self.body = self.top[0], self.top[1]

    def encode(self):
        return self.top.encode()

    def _tagged(self, name):
        # sender and recipient are GeneralNames and carry context tags as well: skip pvno, sender, recipient
        for k in self.header.kids[3:]:
            if k.tag[0] == HEADER_TAG[name]:
                return k
        return None

    def field(self, name):
        n = self._tagged(name)
        return None if n is None else n[0]

    def octets(self, name):
        n = self.field(name)
        return None if n is None else n.data

    def set_octets(self, name, value):
        """Set or remove (None) an OCTET STRING header field."""
        tag = HEADER_TAG[name]
        n = self._tagged(name)
        if value is None:
            if n is not None:
                self.header.kids.remove(n)
            return self
        if n is not None:
            n[0].data = value
            return self
        new = Node(bytes([tag]), [octets(value)])
        i = 3
        while i < len(self.header.kids) and self.header[i].tag[0] < tag:
            i += 1
        self.header.kids.insert(i, new)
        return self

    def flip_protection(self, bit=0):
        for k in self.top.kids[2:]:
            if k.tag == b"\xa0":
                d = bytearray(k[0].data)
                d[-1 - bit // 8] ^= 1 << (bit % 8)
                k[0].data = bytes(d)
                return self
        raise ValueError("not protected")

    def drop_protection(self, keep_alg=False, keep_certs=False):
        out = []
        for i, k in enumerate(self.top.kids):
            if i >= 2 and k.tag == b"\xa0":
                continue
            if i >= 2 and k.tag == b"\xa1" and not keep_certs:
                continue
            out.append(k)
        self.top.kids = out
        if not keep_alg:
            n = self._tagged("protectionAlg")
            if n is not None:
                self.header.kids.remove(n)
        return self
