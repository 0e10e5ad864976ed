//! C09: ZUC, 128-EEA3 and 128-EIA3 against an independent implementation.
use checks::*;
use rcrypto::{Cipher, Digest, ZUCCipher, ZUCMac, ZUC};
use refimpl::zuc as rz;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { Words(u16), Iter(u16), Set(Blob, Blob, bool), SetBad(usize, usize), Clone }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gen { key: Blob, iv: Blob, slice: bool, ops: Vec<(u8, Op)> }

fn generator(c: &Gen) -> Res {
    let (k, v) = (c.key.bytes(), c.iv.bytes());
    let z = if c.slice { must!(ZUC::from_slice(&k, &v), "ZUC::from_slice") } else { ZUC::new(arr(&k), arr(&v)) };
    let mut objs = vec![(z, rz::Zuc::new(&k, &v))];
    let mut words = 0;
    let mut labels = vec![];
    for (i, (who, op)) in c.ops.iter().enumerate() {
        let n = objs.len();
        let (z, r) = &mut objs[*who as usize % n];
        match op {
            Op::Words(n) => for j in 0..*n { let (a, b) = (z.zuc(), r.next()); ensure!(a == b, "ZUC op {} word {}: got {:08x} want {:08x}", i, j, a, b); words += 1; },
            Op::Iter(n) => for (j, a) in z.by_ref().take(*n as usize).enumerate() { let b = r.next(); ensure!(a == b, "ZUC op {} iterated word {}: got {:08x} want {:08x}", i, j, a, b); words += 1; },
            Op::Set(k, v, slice) => {
                let (k, v) = (k.bytes(), v.bytes());
                if *slice { must!(z.set_slice(&k, &v), "ZUC::set_slice"); } else { z.set(arr(&k), arr(&v)); }
                *r = rz::Zuc::new(&k, &v);
                labels.push(s("re-keyed"));
            }
            Op::SetBad(a, b) => if (*a, *b) != (16, 16) {
                ensure!(z.set_slice(&vec![1; *a], &vec![2; *b]).is_err(), "set_slice accepted key {} and IV {} bytes", a, b);
                ensure!(ZUC::from_slice(&vec![1; *a], &vec![2; *b]).is_err(), "from_slice accepted key {} and IV {} bytes", a, b);
                labels.push(s("refused lengths"));
            },
            Op::Clone => if n < 4 { let d = (z.clone(), r.clone()); objs.push(d); labels.push(s("cloned")); },
        }
    }
    for (z, r) in objs.iter_mut() { for _ in 0..3 { let (a, b) = (z.zuc(), r.next()); ensure!(a == b, "ZUC at the end: got {:08x} want {:08x}", a, b); } }
    labels.sort();
    labels.dedup();
    okls(words > 0, labels)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Id { count: u32, bearer: u8, dir: bool, ck: Blob, slice: bool }
impl Id {
    fn cipher(&self) -> Result<ZUCCipher, String> {
        let k = self.ck.bytes();
        Ok(if self.slice { must!(ZUCCipher::from_slice(self.count, self.bearer, self.dir, &k), "ZUCCipher::from_slice") } else { ZUCCipher::new(self.count, self.bearer, self.dir, arr(&k)) })
    }
    fn mac(&self) -> Result<ZUCMac, String> {
        let k = self.ck.bytes();
        Ok(if self.slice { must!(ZUCMac::from_slice(self.count, self.bearer, self.dir, &k), "ZUCMac::from_slice") } else { ZUCMac::new(self.count, self.bearer, self.dir, arr(&k)) })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum COp { Enc(Blob), Dec(Blob), Reset, Clone }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Eea { id: Id, ops: Vec<(u8, COp)>, dirty: usize }

fn eea3(c: &Eea) -> Res {
    let id = &c.id;
    let mut objs = vec![(id.cipher()?, 0usize)];
    ensure!(objs[0].0.block_size().is_none(), "stream cipher with a block size");
    let total: usize = c.ops.iter().map(|(_, o)| match o { COp::Enc(b) | COp::Dec(b) => b.len, _ => 0 }).sum();
    let ks = rz::eea3_keystream(id.count, id.bearer, id.dir, &id.ck.bytes(), total + 16);
    let mut labels = vec![];
    let mut bytes = 0;
    for (i, (who, op)) in c.ops.iter().enumerate() {
        let n = objs.len();
        let (z, pos) = &mut objs[*who as usize % n];
        match op {
            COp::Enc(b) | COp::Dec(b) => {
                let m = b.bytes();
                let want: Vec<u8> = m.iter().zip(&ks[*pos..]).map(|(a, b)| a ^ b).collect();
                let mut out = vec![0xBB; c.dirty];
                let enc = matches!(op, COp::Enc(_));
                let r = if enc { z.encrypt(&mut out, &m) } else { z.decrypt(&mut out, &m) };
                let r = must!(r, "EEA3 call {}", i);
                eq(&format!("EEA3 call {} of {} bytes at keystream byte {}", i, m.len(), pos), &out, &want)?;
                ensure!(r == m.len(), "EEA3 call {}: reported {} of {} bytes", i, r, m.len());
                if *pos % 4 != 0 { labels.push(s("mid-word start")); }
                if m.is_empty() { labels.push(s("empty call")); }
                *pos += m.len();
                bytes += m.len();
            }
            COp::Reset => { z.reset(); *pos = 0; labels.push(s("reset")); }
            COp::Clone => if n < 4 { let d = (z.clone(), *pos); if *pos % 4 != 0 { labels.push(s("cloned mid-word")); } objs.push(d); },
        }
    }
    for (z, pos) in objs.iter_mut() {
        let mut out = vec![];
        must!(z.encrypt(&mut out, &[0; 9]), "EEA3 at the end");
        eq("EEA3 keystream at the end", &out, &ks[*pos..*pos + 9])?;
    }
    if id.bearer > 31 { labels.push(s("bearer above 31")); }
    labels.sort();
    labels.dedup();
    okls(bytes > 0, labels)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Eia { id: Id, msgs: Vec<(Blob, Vec<usize>, u8)>, bad: usize }
fn eia3(c: &Eia) -> Res {
    let id = &c.id;
    let mut z = id.mac()?;
    let k = id.ck.bytes();
    ensure!(z.bits_len() == 32, "EIA3 reports {} bits", z.bits_len());
    let mut labels = vec![];
    let mut spare: Option<(ZUCMac, Vec<u8>)> = None;
    let (mut clean, mut last) = (true, vec![]);
    for (i, (m, cuts, how)) in c.msgs.iter().enumerate() {
        let m = m.bytes();
        let parts = split(&m, cuts);
        for (j, p) in parts.iter().enumerate() {
            z.write(p);
            // keep a copy taken in the middle of the message
            if how & 4 != 0 && j == parts.len() / 2 { let done = parts[..=j].concat(); spare = Some((z.clone(), done)); }
        }
        let mut out = vec![4; i];
        z.checksum(&mut out);
        // without a reset, writing nothing after a checksum leaves the finished message in place
        if clean || !m.is_empty() { last = rz::eia3(id.count, id.bearer, id.dir, &k, &m); }
        eq(&format!("EIA3 message {} of {} bytes in {} writes", i, m.len(), parts.len()), &out, &last)?;
        z.checksum(&mut out);
        eq(&format!("EIA3 message {} again", i), &out, &last)?;
        clean = how & 1 != 0;
        if clean { z.reset(); labels.push(s("reset")); }
        if how & 2 != 0 { z = z.clone(); }
        labels.push(format!("length {} mod 4", m.len() % 4));
        if parts.len() > 1 { labels.push(s("split")); }
    }
    if let Some((mut z, done)) = spare {
        // an empty beginning on a used object leaves the old message in place; skip those
        if !done.is_empty() {
            z.write(b"tail");
            let mut all = done;
            all.extend_from_slice(b"tail");
            let mut out = vec![];
            z.checksum(&mut out);
            eq("EIA3 of a clone continued", &out, &rz::eia3(id.count, id.bearer, id.dir, &k, &all))?;
            labels.push(s("clone continued"));
        }
    }
    if c.bad != 16 {
        ensure!(ZUCMac::from_slice(id.count, id.bearer, id.dir, &vec![0; c.bad]).is_err(), "ZUCMac accepted a key of {} bytes", c.bad);
        ensure!(ZUCCipher::from_slice(id.count, id.bearer, id.dir, &vec![0; c.bad]).is_err(), "ZUCCipher accepted a key of {} bytes", c.bad);
    }
    labels.sort();
    labels.dedup();
    okls(!c.msgs.is_empty(), labels)
}

fn id() -> BoxedStrategy<Id> {
    (prop_oneof![3 => any::<u32>(), 1 => 0u32..4, 1 => (0u32..4).prop_map(|x| u32::MAX - x), 1 => (0u32..32).prop_map(|x| 1 << x)], prop_oneof![3 => 0u8..32, 1 => any::<u8>()], any::<bool>(), blob_n(16), any::<bool>())
        .prop_map(|(count, bearer, dir, ck, slice)| Id { count, bearer, dir, ck, slice }).boxed()
}

fn main() {
    let mut r = Run::new("C09");
    r.assume("reference ZUC/EEA3/EIA3 reproduce the test vectors published with the standard (refimpl self-dump, tools/validate_refs.py)");
    r.sub("keystream", 3_000_000, 40_000_000, "ZUC generators: keys and IVs, words by call and by iterator, re-keying, wrong lengths, clones; non-trivial: words compared",
        || (blob_n(16), blob_n(16), any::<bool>(), prop::collection::vec((any::<u8>(), prop_oneof![4 => (0u16..30).prop_map(Op::Words), 2 => (0u16..30).prop_map(Op::Iter), 2 => (blob_n(16), blob_n(16), any::<bool>()).prop_map(|(a, b, c)| Op::Set(a, b, c)), 1 => (0usize..40, prop_oneof![Just(16usize), 0usize..40]).prop_map(|(a, b)| Op::SetBad(a, b)), 1 => Just(Op::Clone)]), 1..10))
            .prop_map(|(key, iv, slice, ops)| Gen { key, iv, slice, ops }), generator).require(&["re-keyed", "refused lengths", "cloned"], 300);
    r.sub("long_keystream", 2_000, 30_000, "30000 to 60000 words from one generator; non-trivial: all",
        || (blob_n(16), blob_n(16), 30_000u16..60_000).prop_map(|(key, iv, n)| Gen { key, iv, slice: true, ops: vec![(0, Op::Words(n))] }), generator);
    r.sub("first_cell", 8_000, 100_000, "keys and IVs for which the first computed register cell is 0, 1, 2^31 - 2 or near them, so that the replacement of zero by 2^31 - 1 is needed; non-trivial: such a key was found",
        || (blob_n(16), blob_n(16), any::<bool>(), prop_oneof![2 => Just(0u64), 1 => 0u64..3, 1 => (1u64..4).prop_map(|x| (1 << 31) - 1 - x), 1 => (0u64..31).prop_map(|x| 1 << x)]), |(k, v, slice, target): &(Blob, Blob, bool, u64)| {
            let (mut k, mut v) = (k.bytes(), v.bytes());
            let found = rz::Zuc::steer(&mut k, &mut v, *target);
            let res = generator(&Gen { key: Blob::lit(&k), iv: Blob::lit(&v), slice: *slice, ops: vec![(0, Op::Words(40))] })?;
            let _ = res;
            okls(found, if found && *target == 0 { vec![s("zero cell")] } else { vec![] })
        }).require(&["zero cell"], 300);
    r.sub("eea3", 4_000_000, 60_000_000, "count/bearer/direction/key, encrypt and decrypt calls of any length interleaved with resets and clones; non-trivial: bytes compared",
        || (id(), prop::collection::vec((any::<u8>(), prop_oneof![5 => blob(prop_oneof![3 => 0..10usize, 1 => 0..150usize]).prop_map(COp::Enc), 3 => blob(prop_oneof![3 => 0..10usize, 1 => 0..150usize]).prop_map(COp::Dec), 1 => Just(COp::Reset), 1 => Just(COp::Clone)]), 1..12), prop_oneof![Just(0usize), 0..30usize])
            .prop_map(|(id, ops, dirty)| Eea { id, ops, dirty }), eea3).require(&["mid-word start", "empty call", "reset", "cloned mid-word", "bearer above 31"], 300);
    r.sub("eea3_long", 4_000, 50_000, "hundreds of calls, messages to 70 KB; non-trivial: bytes compared",
        || (id(), prop_oneof![prop::collection::vec((any::<u8>(), prop_oneof![20 => blob(0..40usize).prop_map(COp::Enc), 20 => blob(0..40usize).prop_map(COp::Dec), 1 => Just(COp::Reset), 1 => Just(COp::Clone)]), 200..600), prop::collection::vec((Just(0u8), blob(0..70_000usize).prop_map(COp::Enc)), 1..4)])
            .prop_map(|(id, ops)| Eea { id, ops, dirty: 0 }), eea3);
    r.sub("eia3", 4_000_000, 60_000_000, "count/bearer/direction/key, 1..4 messages per object in splits, checksum repeated, resets, clones in mid-message, wrong key lengths; non-trivial: all",
        || (id(), prop::collection::vec((blob(prop_oneof![2 => 0..40usize, 1 => lens(4, 300)]), cuts(4), any::<u8>()), 1..5), 0usize..40).prop_map(|(id, msgs, bad)| Eia { id, msgs, bad }), eia3)
        .require(&["length 0 mod 4", "length 1 mod 4", "length 2 mod 4", "length 3 mod 4", "split", "reset", "clone continued"], 300);
    r.sub("eia3_long", 1_500, 20_000, "messages of 1 to 70 KB; non-trivial: all",
        || (id(), blob(1000..70_000usize), prop::collection::vec(0..20_000usize, 0..5)).prop_map(|(id, m, c)| Eia { id, msgs: vec![(m, c, 0)], bad: 16 }), eia3);
    r.sub("very_long", 60, 1_000, "more than 65536 words through EEA3 and EIA3; non-trivial: all",
        || (id(), blob(261_000..300_000usize), prop::collection::vec(0..100_000usize, 0..5), blob(0..40usize)), |(id, m, cuts, next): &(Id, Blob, Vec<usize>, Blob)| {
            eea3(&Eea { id: id.clone(), ops: vec![(0, COp::Enc(m.clone())), (0, COp::Enc(next.clone())), (0, COp::Reset), (0, COp::Dec(m.clone()))], dirty: 0 })?;
            eia3(&Eia { id: id.clone(), msgs: vec![(m.clone(), cuts.clone(), 0), (next.clone(), vec![], 0)], bad: 3 })?;
            ok(true)
        });
    r.finish();
}
