//! Prints reference results as tab separated lines for tools/validate_refs.py.
use refimpl::block::*;
use refimpl::bn::Bn;
use refimpl::hash::Alg;
use refimpl::modes::{self, Mode, Pad};
use refimpl::*;

fn main() {
    let mut r = Sm64(20240607);
    let algs = [("md5", Alg::Md5), ("sha1", Alg::Sha1), ("sha224", Alg::Sha224), ("sha256", Alg::Sha256), ("sha384", Alg::Sha384),
        ("sha512", Alg::Sha512), ("sha512_224", Alg::Sha512t(224)), ("sha512_256", Alg::Sha512t(256)), ("sm3", Alg::Sm3)];
    for n in (0..300).chain([1000, 5000, 70000]) {
        let m = r.bytes(n);
        for (name, a) in &algs {
            println!("hash\t{}\t{}\t{}", name, hex(&m), hex(&a.digest(&m)));
            let mut st = hash::Stream::new(*a);
            let k = if n == 0 { 0 } else { r.below(n as u64) as usize };
            st.update(&m[..k]);
            st.update(&m[k..]);
            println!("hash\t{}\t{}\t{}", name, hex(&m), hex(&st.finish()));
        }
        for b in [224, 256, 384, 512] { println!("hash\tsha3_{}\t{}\t{}", b, hex(&m), hex(&keccak::sha3_bytes(&m, b))); }
        for b in [128, 256] { println!("shake\t{}\t{}\t{}", b, hex(&m), hex(&keccak::shake_bytes(&m, b, false, 8 * (1 + n % 400)))); }
    }
    for i in 0..60 {
        for (name, kl) in [("aes-128", 16), ("aes-192", 24), ("aes-256", 32), ("des", 8), ("des-ede3", 24), ("sm4", 16)] {
            let key = r.bytes(kl);
            let c: Box<dyn RefCipher> = match name {
                "des" => Box::new(Des::new(&key)),
                "des-ede3" => Box::new(Tdes::new(&key[..8], &key[8..16], &key[16..])),
                "sm4" => Box::new(Sm4::new(&key)),
                _ => Box::new(Aes::new(&key)),
            };
            let bs = c.bs();
            let iv = r.bytes(bs);
            let m = r.bytes(bs * (1 + i % 9));
            for (mn, mode) in [("ecb", Mode::Ecb), ("cbc", Mode::Cbc), ("cfb", Mode::Cfb(bs)), ("cfb8", Mode::Cfb(1)), ("ofb", Mode::Ofb), ("ctr", Mode::Ctr)] {
                let ct = modes::encrypt(&*c, &mode, Pad::None, &iv, 0, &m).unwrap();
                assert_eq!(modes::decrypt(&*c, &mode, Pad::None, &iv, 0, &ct).unwrap(), m);
                println!("mode\t{}-{}\t{}\t{}\t{}\t{}", name, mn, hex(&key), hex(&iv), hex(&m), hex(&ct));
            }
            let m2 = r.bytes(i);
            println!("cmac\t{}\t{}\t{}\t{}", name, hex(&key), hex(&m2), hex(&mac::cmac(&*c, &m2)));
            let hk = r.bytes(r.clone().below(200) as usize);
            println!("hmac\tsha256\t{}\t{}\t{}", hex(&hk), hex(&m2), hex(&mac::hmac(&|x| Alg::Sha256.digest(x), 64, &hk, &m2)));
            println!("hmac\tsha384\t{}\t{}\t{}", hex(&hk), hex(&m2), hex(&mac::hmac(&|x| Alg::Sha384.digest(x), 128, &hk, &m2)));
        }
        let toy = Toy { bs: 1 + i, key: r.next() };
        let b = r.bytes(1 + i);
        assert_eq!(toy.dec(&toy.enc(&b)), b);
    }
    for i in 0..400 {
        let mut num = |n: usize| { let mut v = r.bytes(n); if i % 3 == 0 { for b in v.iter_mut() { *b = match *b & 3 { 0 => 0, 1 => 255, 2 => 255, _ => *b } } } Bn::from_be(&v) };
        let (a, b, m) = (num(1 + i % 90), num(1 + (i * 7) % 70), num(2 + (i * 5) % 60));
        let mut m = m; m.set_bit(0);
        let (q, re) = a.divrem(&b.add(&Bn::one()));
        let inv = a.modinv(&m).map(|x| x.to_hex()).unwrap_or("none".into());
        println!("bn\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", a.to_hex(), b.to_hex(), m.to_hex(), a.add(&b).to_hex(), a.mul(&b).to_hex(), q.to_hex(), re.to_hex(),
            a.modpow(&b, &m).to_hex(), a.gcd(&b).to_hex(), inv, a.root(3).to_hex());
        assert_eq!(Bn::from_hex(&a.to_hex()), a);
    }
    for i in 0..4 {
        let c = ec::Curve::get(i);
        println!("curve\t{}\t{}\t{}\t{}\t{}\t{}", c.name, c.p.to_hex(), c.n.to_hex(), c.b.to_hex(), c.gx.to_hex(), c.gy.to_hex());
        assert!(c.mul_base(&c.n).is_none());
        for j in 0..30u64 {
            let k = if j < 10 { Bn::from_u64(j) } else { Bn::from_be(&r.bytes(c.bits / 8)) };
            let (x, y) = c.point_from_x(&Bn::from_be(&r.bytes(c.bits / 8)), j % 2 == 0);
            let s = |p: &ec::Pt| match p { None => "inf\tinf".into(), Some((x, y)) => format!("{}\t{}", x.to_hex(), y.to_hex()) };
            let kp = c.mul(&Some((x.clone(), y.clone())), &k);
            println!("ec\t{}\t{}\t{}\t{}\t{}\t{}\t{}", c.name, k.to_hex(), x.to_hex(), y.to_hex(), s(&kp), s(&c.mul_base(&k)), s(&c.add(&kp, &c.g())));
            let d = Bn::from_u64(12345 + j);
            let h = r.bytes(20 + j as usize);
            let (rr, ss) = c.ecdsa_sign(&d, &k.add(&Bn::one()), &h).unwrap();
            assert!(c.ecdsa_verify(&c.mul_base(&d), &h, &rr, &ss));
        }
    }
    let h1 = |x: &[u8]| Alg::Sha1.digest(x);
    for i in 0..40 {
        let (k, e) = (64 + i, 8 * (64 + i) - 1 - i % 9);
        let seed = r.bytes(20); let msg = r.bytes(i % 20);
        println!("oaep\t{}\t{}\t{}\t{}\t{}", k, "6162", hex(&msg), hex(&seed), hex(&rsa::oaep_encode(&h1, 20, k, b"ab", &msg, &seed).unwrap()));
        assert_eq!(rsa::oaep_decode(&h1, 20, k, b"ab", &rsa::oaep_encode(&h1, 20, k, b"ab", &msg, &seed).unwrap()).unwrap(), msg);
        let em = rsa::pss_encode(&h1, 20, e, &seed, &msg).unwrap();
        assert!(rsa::pss_verify(&h1, 20, e, &seed, msg.len(), &em));
        println!("pss\t{}\t{}\t{}\t{}", e, hex(&seed), hex(&msg), hex(&em));
    }
    // Keccak-f[200] of the zero state
    println!("kat\tkeccak200\t{}", hex(&keccak::bytes_of(&keccak::permute_bits(&vec![false; 200], 200, 18))));
    println!("kat\tkeccak1600\t{}", hex(&keccak::bytes_of(&keccak::permute_bits(&vec![false; 1600], 1600, 24))));
    let z = |k: u8, v: u8| { let mut z = zuc::Zuc::new(&[k; 16], &[v; 16]); format!("{:08x}{:08x}", z.next(), z.next()) };
    println!("kat\tzuc\t{}{}", z(0, 0), z(255, 255));
    println!("kat\teia3\t{}", hex(&zuc::eia3_bits(0, 0, false, &[0; 16], &[0; 4], 1)));
    let m = unhex("983b41d47d780c9e1ad11d7eb70391b1de0b35da2dc62f83e7b78d6306ca0ea07e941b7be91348f9fcb170e2217fecd97f9f68adb16e5d7d21e569d280ed775cebde3f4093c5388100000000");
    println!("kat\teia3b\t{}", hex(&zuc::eia3_bits(0xa94059da, 0xa, true, &unhex("c9e6cec4607c72db000aefa88385ab0a"), &m, 0x241)));
}
