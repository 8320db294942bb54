import sys; sys.path.insert(0, '/verif')
from sim import keys
def find(n1, n2):
    seen = {}
    import hashlib
    for t in range(1100000000, 1100000000 + 150000):
        seen[keys.fingerprint(keys.rsa_body(t, n1))[-8:]] = t
    for t in range(1100000000, 1100000000 + 400000):
        f = keys.fingerprint(keys.rsa_body(t, n2))[-8:]
        if f in seen:
            return seen[f], t
base = (1<<127)
for i in range(4):
    n1 = base + 1001 + 2*i; n2 = base + 90001 + 2*i
    r = find(n1, n2)
    print(r and ((r[0], n1), (r[1], n2)))
