#!/opt/venv/bin/python
"""Generates data/keys.json (run once; the file is committed)."""
import json
import os
import sys

from Crypto.Util import number

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rsa(bits, ctime, e=65537, alg=1):
    while True:
        p = number.getPrime(bits // 2 + (bits & 1))
        q = number.getPrime(bits // 2)
        if p > q:
            p, q = q, p
        n = p * q
        phi = (p - 1) * (q - 1)
        if n.bit_length() == bits and number.GCD(e, phi) == 1 and p != q:
            break
    d = number.inverse(e, phi)
    u = number.inverse(p, q)
    return dict(part('rsa', ctime, [n, e], [d, p, q, u]), alg=alg)


def dsa(L, N, ctime):
    q = number.getPrime(N)
    while True:
        k = number.getRandomNumber(L - N)
        p = k * q + 1
        if p.bit_length() == L and number.isPrime(p):
            break
    h = 2
    while pow(h, (p - 1) // q, p) == 1:
        h += 1
    g = pow(h, (p - 1) // q, p)
    x = number.getRandomRange(2, q - 1)
    return part('dsa', ctime, [p, q, g, pow(g, x, p)], [x])


def elg(bits, ctime):
    p = number.getPrime(bits)
    g = 5
    x = number.getRandomRange(2, p - 2)
    return part('elg', ctime, [p, g, pow(g, x, p)], [x])


def part(kind, ctime, pub, sec):
    return {'kind': kind, 'ctime': ctime, 'pub': ['%x' % i for i in pub],
            'sec': ['%x' % i for i in sec]}


def main():
    T = 1300000000
    S, E, C = 2, 12, 1
    out = []

    def key(name, uids, parts, flags, passphrase, usage, cipher, mode, hash_,
            coded=0x20):
        out.append({'name': name, 'uids': uids, 'parts': parts,
                    'flags': flags, 'passphrase': passphrase,
                    'prot': {'usage': usage, 'cipher': cipher, 'mode': mode,
                             'hash': hash_, 'coded': coded}})
    key('ann', ['Ann <ann@example.org>'],
        [rsa(1024, T), rsa(1024, T)], [C | S, E], 'secret of ann',
        254, 9, 3, 8)
    key('bob', ['Bob (work) <bob@example.org>', 'Bob <bob@example.com>'],
        [dsa(1024, 160, T + 1), elg(1024, T + 1)], [C | S, E],
        'p\xe4ssw\xf6rd \u2713', 254, 3, 3, 2)
    key('cy', ['Cy <cy@example.org>'],
        [rsa(1031, T + 2), rsa(1017, T + 3), dsa(1024, 160, T + 4)],
        [C | S, E, S], 'x', 254, 2, 1, 2)
    key('dee', ['Dee <dee@example.org>'],
        [dsa(2048, 224, T + 5), elg(1030, T + 5)], [C | S, E],
        'a much longer pass phrase, with spaces ' * 3, 254, 7, 3, 10)
    key('eve', ['Eve <eve@example.org>'],
        [rsa(1024, T + 6), elg(1021, T + 7)], [C | S, E], 'walter2',
        255, 8, 0, 8)
    key('fay', ['Fay <fay@example.org>'],
        [dsa(1024, 256, T + 8), rsa(1024, T + 8)], [C | S, E], '  lead',
        254, 4, 3, 9)
    # sign-only and encrypt-only RSA
    key('gil', ['Gil <gil@example.org>'],
        [rsa(1100, T + 9, 3, 3), rsa(1025, T + 9, 17, 2),
         dsa(1024, 160, T + 10), elg(1022, T + 11)], [C | S, E, S, E],
        '\u65e5\u672c', 254, 10, 3, 11, 0)
    with open(os.path.join(HERE, 'data', 'keys.json'), 'w') as fh:
        json.dump(out, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    sys.exit(main())
