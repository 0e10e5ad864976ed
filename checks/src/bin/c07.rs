//! C07: encrypting and decrypting streams under any chunking, draw-off schedule and reuse.
use checks::modes::*;
use checks::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum End {
    /// finish and take the rest of the output (or throw it away)
    Finish(bool),
    /// leave the message unfinished
    Reset,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Input {
    /// plaintext for an encrypting stream, the reference's ciphertext of it for a decrypting one
    Good(Msg),
    /// any bytes
    Raw(Blob),
    /// the good input without its last bytes
    Cut(Msg, usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OneShot { at: usize, enc: bool, msg: Msg }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Piece { n: usize, draw: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Message { input: Input, pieces: Vec<Piece>, end: End, shots: Vec<OneShot>, more: Option<Blob> }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { spec: Spec, enc: bool, warm: usize, msgs: Vec<Message> }

fn run(c: &Case) -> Res {
    let sp = &c.spec;
    let (bs, mode, pad, rc, iv) = (sp.bs(), sp.mode(), sp.rpad(), sp.rc(), sp.iv.bytes());
    let is_ctr = sp.mode == ModeK::Ctr;
    let blocks = |n: usize| ((n + bs - 1) / bs) as u64;
    let LibMode { m, .. } = sp.make()?;
    // counter blocks spent before the stream is made are given back by making it
    if c.warm > 0 { let mut o = vec![]; let _ = m.encrypt(&mut o, &vec![0x31; c.warm]); }
    let mut st = if c.enc { m.enc_stream() } else { m.dec_stream() };
    let mut base = 0u64;
    let mut labels = vec![format!("{} {}", sp.short(), if c.enc { "encrypt" } else { "decrypt" })];
    let mut good = 0;
    for (mi, msg) in c.msgs.iter().enumerate() {
        let at = format!("{} {} stream message {}", sp.name(), if c.enc { "encrypting" } else { "decrypting" }, mi);
        let make = |m: &Msg| {
            let p = m.bytes();
            if c.enc { p } else { rm::encrypt(&*rc, &mode, pad, &iv, base, &p).unwrap_or(p) }
        };
        let mut data = match &msg.input { Input::Good(m) => make(m), Input::Raw(b) => b.bytes(), Input::Cut(m, k) => { let mut d = make(m); let l = d.len().saturating_sub(*k); d.truncate(l); d } };
        let oracle = |start: u64, d: &[u8]| if c.enc { rm::encrypt(&*rc, &mode, pad, &iv, start, d) } else { rm::decrypt(&*rc, &mode, pad, &iv, start, d) };
        let mut out = vec![];
        let mut fed = 0;
        // CTR: counter blocks spent by one-shot calls, as (offset in the message, blocks)
        let mut skips: Vec<(usize, u64)> = vec![];
        let shot = |st: &dyn Str, i: usize, fed: usize, skips: &mut Vec<(usize, u64)>| -> Result<(), String> {
            for sh in msg.shots.iter().filter(|s| s.at == i) {
                // which counter block a started block gets is not specified, so stay at block boundaries
                if is_ctr && fed % bs != 0 { continue; }
                let p = sh.msg.bytes();
                let pos = base + blocks(fed) + skips.iter().map(|s| s.1).sum::<u64>();
                let mut o = vec![1, 2, 3];
                let (got, want) = if sh.enc { (st.enc(&mut o, &p), rm::encrypt(&*rc, &mode, pad, &iv, pos, &p)) } else { (st.dec(&mut o, &p), rm::decrypt(&*rc, &mode, pad, &iv, pos, &p)) };
                match (got, want) {
                    (Ok(n), Some(w)) => { eq(&format!("{} one-shot call after {} bytes", at, fed), &o, &w)?; ensure!(n == o.len(), "one-shot reported {}", n); }
                    (Err(_), None) => (),
                    (Ok(_), None) => fail!("{} one-shot call accepted {} bytes", at, p.len()),
                    (Err(e), Some(_)) => fail!("{} one-shot call refused {} bytes: {:?}", at, p.len(), e),
                }
                if is_ctr { skips.push((fed, blocks(p.len()))); }
            }
            Ok(())
        };
        for (i, pc) in msg.pieces.iter().enumerate() {
            shot(&*st, i, fed, &mut skips)?;
            if !msg.shots.is_empty() { labels.push(s("one-shot in between")); }
            let e = (fed + pc.n).min(data.len());
            must!(st.write(&data[fed..e], if pc.draw { Some(&mut out) } else { None }), "{} write", at);
            fed = e;
        }
        must!(st.write(&data[fed..], None), "{} write", at);
        if msg.pieces.len() > 1 { labels.push(s("chunked")); }
        if msg.pieces.iter().any(|p| p.draw) { labels.push(s("drawn early")); }
        let eval = |d: &[u8]| -> Option<Vec<u8>> {
            if !is_ctr || skips.is_empty() { return oracle(base, d); }
            let mut o = vec![];
            let mut prev = 0;
            let mut start = base;
            for (off, n) in skips.iter().chain(std::iter::once(&(d.len(), 0))) {
                o.extend(oracle(start, &d[prev..*off])?);
                start += blocks(off - prev) + n;
                prev = *off;
            }
            Some(o)
        };
        let mut end = msg.end.clone();
        if let End::Finish(draw) = end {
            let mut want = eval(&data);
            let mut r = st.finish(if draw { Some(&mut out) } else { None });
            if let (Err(_), None, Some(more)) = (&r, &want, &msg.more) {
                // a refused finish changes nothing: the message may go on
                let more = more.bytes();
                must!(st.write(&more, None), "{} write after a refused finish", at);
                data.extend_from_slice(&more);
                want = eval(&data);
                r = st.finish(if draw { Some(&mut out) } else { None });
                labels.push(s("went on after a refused finish"));
            }
            match (r, want) {
                (Ok(_), Some(w)) => {
                    if draw { eq(&format!("{} of {} bytes in {} writes", at, data.len(), msg.pieces.len() + 1), &out, &w)?; } else {
                        ensure!(w.starts_with(&out), "{}: drawn output is not the beginning of the result", at);
                        labels.push(s("result thrown away"));
                    }
                    good += 1;
                    base += if is_ctr { blocks(data.len()) + skips.iter().map(|s| s.1).sum::<u64>() } else { 0 };
                }
                (Err(_), None) => { labels.push(s("refused like one-shot")); end = End::Reset; }
                (Ok(_), None) => fail!("{} of {} bytes: finished although the one-shot call fails", at, data.len()),
                (Err(e), Some(_)) => fail!("{} of {} bytes: {:?} although the one-shot call succeeds", at, data.len(), e),
            }
        }
        if let End::Reset = end { st.reset(); base = 0; labels.push(s("reset")); }
        if mi > 0 { labels.push(s("reused")); }
    }
    labels.sort();
    labels.dedup();
    okls(good > 0, labels)
}

fn pieces(bs: usize, max: usize) -> BoxedStrategy<Vec<Piece>> {
    prop::collection::vec((prop_oneof![2 => 0..=3usize, 4 => 0..=(2 * bs + 2), 1 => Just(bs), 1 => Just(0usize), 1 => 0..=(5 * bs)], prop::bool::weighted(0.4)).prop_map(|(n, draw)| Piece { n, draw }), 0..max).boxed()
}
fn msg(spec: &Spec, max: usize) -> BoxedStrategy<Message> {
    let bs = spec.bs();
    let unit = spec.unit();
    let pad = spec.pad;
    // lengths that fit most of the time
    let fit = move |m: Msg| { let mut m = m; if !pad { let l = m.body.len + m.tail.len(); m.body.len += (unit - l % unit) % unit; } m };
    let input = prop_oneof![8 => message(bs).prop_map(move |m| Input::Good(fit(m))), 1 => message(bs).prop_map(Input::Good), 1 => blob(lens(bs, 4 * bs)).prop_map(Input::Raw), 1 => (message(bs), 1..(bs + 3)).prop_map(|(m, k)| Input::Cut(m, k))];
    (input, pieces(bs, max), prop_oneof![8 => Just(End::Finish(true)), 1 => Just(End::Finish(false)), 2 => Just(End::Reset)],
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((0..4usize, any::<bool>(), message(bs)).prop_map(|(at, enc, msg)| OneShot { at, enc, msg }), 1..3)],
        prop_oneof![2 => Just(None), 1 => blob(0..(2 * bs)).prop_map(Some)])
        .prop_map(|(input, pieces, end, shots, more)| Message { input, pieces, end, shots, more }).boxed()
}

fn main() {
    let mut r = Run::new("C07");
    r.assume("the one-shot result is that of the reference modes (decided by C06)");
    r.sub("stream", 3_500_000, 24_000_000, "mode x cipher x padding x direction, 1..4 messages per stream, each cut into 0..9 writes with output drawn off at random moments, one-shot calls in between, finish/reset/refused finish; non-trivial: at least one message finished",
        || (spec(), any::<bool>(), prop_oneof![2 => Just(0usize), 1 => 1..60usize]).prop_flat_map(|(spec, enc, warm)| { let m = prop::collection::vec(msg(&spec, 9), 1..5); (Just(spec), Just(enc), Just(warm), m) })
            .prop_map(|(spec, enc, warm, msgs)| Case { spec, enc, warm, msgs }), run)
        .require(&["ECB encrypt", "ECB decrypt", "CBC encrypt", "CBC decrypt", "CFB encrypt", "CFB decrypt", "OFB encrypt", "OFB decrypt", "CTR encrypt", "CTR decrypt", "chunked", "drawn early", "reused", "reset", "refused like one-shot", "one-shot in between", "went on after a refused finish", "result thrown away"], 300);
    r.sub("long_stream", 12_000, 150_000, "8 to 30 messages per stream, up to 40 writes each; non-trivial: as above",
        || (spec(), any::<bool>()).prop_flat_map(|(spec, enc)| { let m = prop::collection::vec(msg(&spec, 40), 8..30); (Just(spec), Just(enc), m) }).prop_map(|(spec, enc, msgs)| Case { spec, enc, warm: 0, msgs }), run);
    r.sub("big_writes", 3_000, 40_000, "single writes of 100 to 1500 blocks; non-trivial: as above",
        || (spec(), any::<bool>()).prop_flat_map(|(spec, enc)| { let b = spec.bs(); (Just(spec), Just(enc), blob((100 * b)..(1500 * b)), pieces(300 * b, 4)) })
            .prop_map(|(spec, enc, mut body, pieces)| { if !spec.pad { body.len -= body.len % spec.unit(); } Case { spec, enc, warm: 0, msgs: vec![Message { input: Input::Good(Msg { body, tail: vec![] }), pieces, end: End::Finish(true), shots: vec![], more: None }] } }), run);
    r.sub("very_long", 160, 3_000, "messages of a little more than 65536 blocks or segments in up to 40 writes; non-trivial: as above",
        || (spec().prop_filter("small blocks", |s| s.bs() <= 16), any::<bool>()).prop_flat_map(|(spec, enc)| { let u = match spec.mode { ModeK::Cfb(s) => s, _ => spec.bs() }; (Just(spec), Just(enc), blob((65_530 * u)..(66_100 * u)), prop::collection::vec((0..4_000 * u, any::<bool>()).prop_map(|(n, draw)| Piece { n, draw }), 0..40)) })
            .prop_map(|(spec, enc, mut body, pieces)| { if !spec.pad { body.len -= body.len % spec.unit(); } Case { spec, enc, warm: 0, msgs: vec![Message { input: Input::Good(Msg { body, tail: vec![] }), pieces, end: End::Finish(true), shots: vec![], more: None }] } }), run);
    r.finish();
}
