#!/usr/bin/env python3
"""Development-time validation of the reference implementations against hashlib,
OpenSSL and Python integers. Usage: refdump | validate_refs.py"""
import sys, hashlib, hmac, subprocess, collections

count = collections.Counter()
bad = []
CURVES = {}

def openssl(args, data):
    return subprocess.run(["openssl"] + args, input=data, capture_output=True, check=True).stdout

def add(c, P, Q):
    p = c[0]
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0: return None
        l = (3 * P[0] * P[0] - 3) * pow(2 * P[1], -1, p) % p
    else:
        l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
    x = (l * l - P[0] - Q[0]) % p
    return (x, (l * (P[0] - x) - P[1]) % p)

def mul(c, P, k):
    R = None
    while k:
        if k & 1: R = add(c, R, P)
        P = add(c, P, P)
        k >>= 1
    return R

def mgf1(seed, n):
    out = b""
    i = 0
    while len(out) < n:
        out += hashlib.sha1(seed + i.to_bytes(4, "big")).digest(); i += 1
    return out[:n]

def xor(a, b): return bytes(x ^ y for x, y in zip(a, b))

def check(kind, want, got, line):
    count[kind] += 1
    if want != got: bad.append((kind, want, got, line[:200]))

for line in sys.stdin:
    f = line.rstrip("\n").split("\t")
    if f[0] == "hash":
        check(f[1], hashlib.new(f[1], bytes.fromhex(f[2])).hexdigest(), f[3], line)
    elif f[0] == "shake":
        check("shake", getattr(hashlib, "shake_" + f[1])(bytes.fromhex(f[2])).hexdigest(len(f[3]) // 2), f[3], line)
    elif f[0] == "hmac":
        check("hmac", hmac.new(bytes.fromhex(f[2]), bytes.fromhex(f[3]), f[1]).hexdigest(), f[4], line)
    elif f[0] == "mode":
        name, key, iv, m, ct = f[1:]
        if name.startswith("des-") and not name.startswith("des-ede3"):
            name, key = "des-ede3" + name[3:], key * 3
        alg = name[:-4] if name == "des-ede3-ecb" else name
        if name.endswith("-ctr") and name.startswith("des"): continue
        if name == "sm4-cfb8": continue
        a = ["enc", "-" + alg, "-K", key, "-nopad"]
        if not name.endswith("ecb"): a += ["-iv", iv]
        check(f[1], openssl(a, bytes.fromhex(m)).hex(), ct, line)
    elif f[0] == "cmac":
        name, key, m, t = f[1:]
        if name in ("des",): name, key = "des-ede3", key * 3
        out = openssl(["mac", "-cipher", name + "-cbc", "-macopt", "hexkey:" + key, "-in", "-", "CMAC"], bytes.fromhex(m)) if m else None
        if out is not None: check("cmac " + f[1], out.decode().strip().lower(), t, line)
    elif f[0] == "bn":
        a, b, m, s, p, q, r, e, g, inv, rt = [None if x == "none" else int(x, 16) if x else 0 for x in f[1:]]
        import math
        check("bn", (a + b, a * b, a // (b + 1), a % (b + 1), pow(a, b, m), math.gcd(a, b)), (s, p, q, r, e, g), line)
        try: w = pow(a, -1, m)
        except ValueError: w = None
        check("bn inv", w, inv, line)
        check("bn root", True, rt ** 3 <= a < (rt + 1) ** 3, line)
    elif f[0] == "curve":
        p, n, b, gx, gy = [int(x, 16) for x in f[2:]]
        CURVES[f[1]] = (p, n, b, (gx, gy))
        check("curve", True, (gy * gy - gx ** 3 + 3 * gx - b) % p == 0 and mul((p,), (gx, gy), n) is None and gx < p, line)
    elif f[0] == "ec":
        c = CURVES[f[1]]
        P = lambda a, b: None if a == "inf" else (int(a, 16), int(b, 16))
        k = int(f[2], 16) if f[2] else 0
        pt = P(f[3], f[4])
        kp = mul(c, pt, k)
        check("ec", (kp, mul(c, c[3], k), add(c, kp, c[3])), (P(f[5], f[6]), P(f[7], f[8]), P(f[9], f[10])), line)
    elif f[0] == "oaep":
        k = int(f[1]); lab, m, seed = [bytes.fromhex(x) for x in f[2:5]]
        db = hashlib.sha1(lab).digest() + b"\0" * (k - len(m) - 42) + b"\1" + m
        md = xor(db, mgf1(seed, len(db)))
        check("oaep", (b"\0" + xor(seed, mgf1(md, 20)) + md).hex(), f[5], line)
    elif f[0] == "pss":
        eb = int(f[1]); mh, salt = bytes.fromhex(f[2]), bytes.fromhex(f[3])
        el = (eb + 7) // 8
        h = hashlib.sha1(b"\0" * 8 + mh + salt).digest()
        db = b"\0" * (el - len(salt) - 22) + b"\1" + salt
        md = bytearray(xor(db, mgf1(h, len(db)))); md[0] &= 0xff >> (8 * el - eb)
        check("pss", (bytes(md) + h + b"\xbc").hex(), f[4], line)
    elif f[0] == "kat":
        want = {"keccak200": "3c2826841cb35c171eaae9b811134ceaa3852c69d2c5abafea", "zuc": "27bede74018082da0657cfa07096398b", "eia3": "c8a9595e", "eia3b": "fae8ff0b",
                "keccak1600": "e7dde140798f25f18a47c033f9ccd584eea95aa61e2698d54d49806f304715bd"}[f[1]]
        check("kat", want, f[2][:len(want)], line)
for k, v in sorted(count.items()): print(k, v)
for b in bad[:20]: print("BAD", b)
print("bad:", len(bad))
sys.exit(1 if bad else 0)
