"""Twofish, written from the published specification (Schneier et al. 1998).
Independent of the implementation bundled with the code under test."""
import struct

RS = [[0x01, 0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E],
      [0xA4, 0x56, 0x82, 0xF3, 0x1E, 0xC6, 0x68, 0xE5],
      [0x02, 0xA1, 0xFC, 0xC1, 0x47, 0xAE, 0x3D, 0x19],
      [0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E, 0x03]]
MDS = [[0x01, 0xEF, 0x5B, 0x5B],
       [0x5B, 0xEF, 0xEF, 0x01],
       [0xEF, 0x5B, 0x01, 0xEF],
       [0xEF, 0x01, 0xEF, 0x5B]]
T0 = [[0x8, 0x1, 0x7, 0xD, 0x6, 0xF, 0x3, 0x2, 0x0, 0xB, 0x5, 0x9, 0xE, 0xC, 0xA, 0x4],
      [0xE, 0xC, 0xB, 0x8, 0x1, 0x2, 0x3, 0x5, 0xF, 0x4, 0xA, 0x6, 0x7, 0x0, 0x9, 0xD],
      [0xB, 0xA, 0x5, 0xE, 0x6, 0xD, 0x9, 0x0, 0xC, 0x8, 0xF, 0x3, 0x2, 0x4, 0x7, 0x1],
      [0xD, 0x7, 0xF, 0x4, 0x1, 0x2, 0x6, 0xE, 0x9, 0xB, 0x3, 0x0, 0x8, 0x5, 0xC, 0xA]]
T1 = [[0x2, 0x8, 0xB, 0xD, 0xF, 0x7, 0x6, 0xE, 0x3, 0x1, 0x9, 0x4, 0x0, 0xA, 0xC, 0x5],
      [0x1, 0xE, 0x2, 0xB, 0x4, 0xC, 0x3, 0x7, 0x6, 0xD, 0xA, 0x5, 0xF, 0x9, 0x0, 0x8],
      [0x4, 0xC, 0x7, 0x5, 0x1, 0x6, 0x9, 0xA, 0x0, 0xE, 0xD, 0x8, 0x2, 0xB, 0x3, 0xF],
      [0xB, 0x9, 0x5, 0x1, 0xC, 0x3, 0xD, 0xE, 0x6, 0x4, 0x7, 0xF, 0x2, 0x0, 0x8, 0xA]]


def _q(t):
    out = []
    for x in range(256):
        a, b = x >> 4, x & 15
        ror4 = lambda v: ((v >> 1) | (v << 3)) & 15
        for r in (0, 2):
            a, b = a ^ b, a ^ ror4(b) ^ ((8 * a) & 15)
            a, b = t[r][a], t[r + 1][b]
        out.append(16 * b + a)
    return out


Q0, Q1 = _q(T0), _q(T1)


def _gf(a, b, poly):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= poly
        b >>= 1
    return r


_MDS_COL = []
for _j in range(4):
    _MDS_COL.append([sum(_gf(MDS[i][_j], x, 0x169) << (8 * i) for i in range(4)) for x in range(256)])


def _h(X, L):
    k = len(L)
    y = [(X >> (8 * i)) & 0xFF for i in range(4)]
    l = [[(w >> (8 * i)) & 0xFF for i in range(4)] for w in L]
    if k == 4:
        y = [Q1[y[0]] ^ l[3][0], Q0[y[1]] ^ l[3][1], Q0[y[2]] ^ l[3][2], Q1[y[3]] ^ l[3][3]]
    if k >= 3:
        y = [Q1[y[0]] ^ l[2][0], Q1[y[1]] ^ l[2][1], Q0[y[2]] ^ l[2][2], Q0[y[3]] ^ l[2][3]]
    y = [Q1[Q0[Q0[y[0]] ^ l[1][0]] ^ l[0][0]],
         Q0[Q0[Q1[y[1]] ^ l[1][1]] ^ l[0][1]],
         Q1[Q1[Q0[y[2]] ^ l[1][2]] ^ l[0][2]],
         Q0[Q1[Q1[y[3]] ^ l[1][3]] ^ l[0][3]]]
    return _MDS_COL[0][y[0]] ^ _MDS_COL[1][y[1]] ^ _MDS_COL[2][y[2]] ^ _MDS_COL[3][y[3]]


M32 = 0xFFFFFFFF
rol = lambda v, n: ((v << n) | (v >> (32 - n))) & M32
ror = lambda v, n: ((v >> n) | (v << (32 - n))) & M32


class Twofish:
    def __init__(self, key):
        assert len(key) in (16, 24, 32)
        k = len(key) // 8
        m = struct.unpack('<%dI' % (2 * k), key)
        me, mo = list(m[0::2]), list(m[1::2])
        s = []
        for i in range(k):
            v = key[8 * i:8 * i + 8]
            w = 0
            for r in range(4):
                b = 0
                for c in range(8):
                    b ^= _gf(RS[r][c], v[c], 0x14D)
                w |= b << (8 * r)
            s.insert(0, w)
        rho = 0x01010101
        self.K = []
        for i in range(20):
            a = _h(2 * i * rho & M32, me)
            b = rol(_h((2 * i + 1) * rho & M32, mo), 8)
            self.K.append((a + b) & M32)
            self.K.append(rol((a + 2 * b) & M32, 9))
        # key dependent s-boxes with the MDS columns folded in
        l = [[(w >> (8 * i)) & 0xFF for i in range(4)] for w in s]
        self.S = []
        for pos in range(4):
            tab = []
            for x in range(256):
                if k == 4:
                    x = (Q1, Q0, Q0, Q1)[pos][x] ^ l[3][pos]
                if k >= 3:
                    x = (Q1, Q1, Q0, Q0)[pos][x] ^ l[2][pos]
                a, b, c = ((Q0, Q0, Q1), (Q1, Q0, Q0), (Q0, Q1, Q1), (Q1, Q1, Q0))[pos]
                tab.append(_MDS_COL[pos][c[b[a[x] ^ l[1][pos]] ^ l[0][pos]]])
            self.S.append(tab)

    def _g(self, x):
        S = self.S
        return S[0][x & 255] ^ S[1][(x >> 8) & 255] ^ S[2][(x >> 16) & 255] ^ S[3][x >> 24]

    def encrypt_block(self, blk):
        K, g = self.K, self._g
        a, b, c, d = (x ^ K[i] for i, x in enumerate(struct.unpack('<4I', blk)))
        for r in range(16):
            t0, t1 = g(a), g(rol(b, 8))
            f0 = (t0 + t1 + K[2 * r + 8]) & M32
            f1 = (t0 + 2 * t1 + K[2 * r + 9]) & M32
            a, b, c, d = ror(c ^ f0, 1), rol(d, 1) ^ f1, a, b
        return struct.pack('<4I', c ^ K[4], d ^ K[5], a ^ K[6], b ^ K[7])

    def decrypt_block(self, blk):
        K, g = self.K, self._g
        c, d, a, b = (x ^ K[4 + i] for i, x in enumerate(struct.unpack('<4I', blk)))
        for r in range(15, -1, -1):
            a, b, c, d = c, d, a, b
            t0, t1 = g(a), g(rol(b, 8))
            f0 = (t0 + t1 + K[2 * r + 8]) & M32
            f1 = (t0 + 2 * t1 + K[2 * r + 9]) & M32
            c, d = rol(c, 1) ^ f0, ror(d ^ f1, 1)
        return struct.pack('<4I', a ^ K[0], b ^ K[1], c ^ K[2], d ^ K[3])

    def cbc_encrypt(self, iv, data):
        out, prev = [], iv
        for i in range(0, len(data), 16):
            prev = self.encrypt_block(bytes(x ^ y for x, y in zip(prev, data[i:i + 16])))
            out.append(prev)
        return b''.join(out)

    def cbc_decrypt(self, iv, data):
        out, prev = [], iv
        for i in range(0, len(data), 16):
            blk = data[i:i + 16]
            out.append(bytes(x ^ y for x, y in zip(prev, self.decrypt_block(blk))))
            prev = blk
        return b''.join(out)


if __name__ == '__main__':
    assert Twofish(bytes(16)).encrypt_block(bytes(16)).hex().upper() == '9F589F5CF6122C32B6BFEC2F2AE8C35A'
    t = Twofish(bytes.fromhex('0123456789ABCDEFFEDCBA987654321000112233445566778899AABBCCDDEEFF'))
    assert t.encrypt_block(bytes(16)).hex().upper() == '37527BE0052334B89F0CFCCAE87CFA20'
    assert t.decrypt_block(t.encrypt_block(b'0123456789abcdef')) == b'0123456789abcdef'
    assert t.cbc_decrypt(bytes(16), t.cbc_encrypt(bytes(16), b'0123456789abcdef' * 3)) == b'0123456789abcdef' * 3
    print('ok')
