//! AUTHENTICATE chunking and reassembly against an independent base64.
use crate::gen;
use crate::infra::*;
use crate::strm::{b64, unb64};
use vinezombie::string::base64::*;

fn payload(r: &mut Rng, max: usize) -> Vec<u8> {
    // Lengths around the points where base64 and chunk lengths line up.
    let n = match r.below(4) {
        0 => r.below(8),
        1 => (r.range(1, 5) * max).saturating_mul(3) / 4 + r.below(7),
        2 => ((r.range(1, 4) * max * 3) / 4).saturating_sub(r.below(4)),
        _ => r.below(3 * max + 10),
    };
    match r.below(3) {
        0 => (0..n).map(|_| r.byte()).collect(),
        1 => vec![r.pickv(&[0u8, 0xff, b'+', b'A']); n],
        _ => (0..n).map(|i| i as u8).collect(),
    }
}
/// Reference chunking, straight from the SASL-over-IRC specification.
fn ref_chunks(v: &[u8], max: usize) -> Vec<Vec<u8>> {
    let e = b64(v);
    let mut out: Vec<Vec<u8>> = e.chunks(max).map(|c| c.to_vec()).collect();
    if out.last().map(|c| c.len() == max).unwrap_or(true) {
        out.push(b"+".to_vec());
    }
    out
}
fn limit(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => 400,
        1 => 4 * r.range(1, 10),
        2 => r.range(2, 30),
        _ => r.pickv(&[2usize, 3, 4, 5, 8, 100, 399, 401]),
    }
}
fn encode(c: &mut Case, v: &[u8], max: usize) -> Vec<Vec<u8>> {
    let secret = c.rng.coin();
    let mut it = ChunkEncoder::new(v, max, secret);
    let want = ref_chunks(v, max);
    let mut got = vec![];
    ck!(c, !it.is_empty(), "is_empty", "before the first chunk");
    loop {
        let left = want.len().saturating_sub(got.len());
        ckeq!(c, it.len(), left, "len", "after {} chunks", got.len());
        ckeq!(c, it.size_hint(), (left, Some(left)), "size_hint", "after {} chunks", got.len());
        // A clone goes on independently.
        if c.rng.chance(1, 6) {
            let rest: Vec<Vec<u8>> = it.clone().map(|a| a.as_bytes().to_vec()).collect();
            ck!(c, rest == want[got.len().min(want.len())..], "clone", "{} chunks from a clone", rest.len());
        }
        let Some(a) = it.next() else { break };
        ck!(c, a.is_secret() == secret, "secrecy", "chunk {} of a {}secret payload", got.len(), if secret { "" } else { "non-" });
        ck!(c, !a.is_empty() && a.len() <= max, "chunk-length", "{} bytes, limit {max}", a.len());
        got.push(a.as_bytes().to_vec());
        if got.len() > want.len() + 2 {
            break;
        }
    }
    ck!(c, it.next().is_none() && it.is_empty(), "fused", "");
    ck!(c, got == want, "chunks", "{:?} expected {:?} (limit {max})", got.iter().map(|x| x.len()).collect::<Vec<_>>(), want.iter().map(|x| x.len()).collect::<Vec<_>>());
    ck!(c, got.last().map(|x| x.len() < max || max == 1) == Some(true), "last-chunk", "limit {max}");
    got
}
fn encoder(c: &mut Case) {
    let max = limit(&mut c.rng);
    let v = payload(&mut c.rng, max);
    c.desc = format!("{} bytes, limit {max}", v.len());
    let ch = encode(c, &v, max);
    c.evn("chunks", ch.len() as u64);
    if ch.last().map(|x| x == b"+") == Some(true) {
        c.ev("plus");
    }
    c.seen(&(max, &v));
    c.sample(|| format!("{} bytes in {} chunks of at most {max}", v.len(), ch.len()));
}
/// Every length around every multiple, at the real chunk size.
fn lengths(c: &mut Case) {
    let v: Vec<u8> = (0..c.idx).map(|i| (i * 7 + c.idx) as u8).collect();
    c.desc = format!("{} bytes", v.len());
    let ch = encode(c, &v, 400);
    let mut d = ChunkDecoder::new(400);
    for (i, x) in ch.iter().enumerate() {
        let r = d.add(x);
        if i + 1 < ch.len() {
            ck!(c, r.is_none(), "early", "chunk {i} of {}", ch.len());
        } else {
            match r {
                Some(Ok(b)) => ck!(c, b.as_bytes() == v, "payload", "{} bytes back", b.len()),
                r => c.fail("no-payload", format!("{:?}", r.map(|r| r.is_ok()))),
            }
        }
    }
    c.ev("lengths");
    c.seen(&c.idx.clone());
}
/// Payload after payload through one decoder, with broken ones and direct decoding in between.
fn decoder(c: &mut Case) {
    let max = 4 * c.rng.pickv(&[1usize, 2, 3, 10, 100]);
    let mut d = ChunkDecoder::new(max);
    let n = c.rng.range(2, 8);
    let mut trace = format!("limit {max}:");
    for _ in 0..n {
        let v = payload(&mut c.rng, max);
        let mut ch = ref_chunks(&v, max);
        let mut want = Some(v.clone());
        match c.rng.below(8) {
            0 => {
                // Broken somewhere.
                let i = c.rng.below(ch.len());
                if ch[i] != b"+" {
                    let k = c.rng.below(ch[i].len());
                    ch[i][k] = c.rng.pickv(b"!-_* \x00\xff=");
                    want = unb64(&ch.iter().filter(|x| *x != b"+").flatten().copied().collect::<Vec<_>>());
                    c.ev("corrupted");
                }
            }
            1 => {
                // Another peer's idea of a last chunk: the final full chunk followed by nothing but '+'.
                let full: Vec<u8> = (0..max / 4 * 3).map(|_| c.rng.byte()).collect();
                ch = ref_chunks(&full, max);
                want = Some(full);
            }
            _ => (),
        }
        trace += &format!(" {}b/{}", v.len(), ch.len());
        c.desc.clone_from(&trace);
        let direct = c.rng.chance(1, 8) && ch.len() > 1;
        for (i, x) in ch.iter().enumerate() {
            let last = i + 1 == ch.len();
            if last && direct {
                // The caller may also ask for what there is.
                let got = d.decode();
                let so_far: Vec<u8> = ch[..i].concat();
                let w = unb64(&so_far);
                check(c, Some(got.map(|b| b.into_vec())), w, "direct");
                break;
            }
            let r = if c.rng.coin() { d.add(x) } else { d.add(x.clone()) };
            if !last {
                ck!(c, r.is_none(), "early", "chunk {i} of {} already gave a result", ch.len());
            } else {
                check(c, r.map(|r| r.map(|b| b.into_vec())), want.clone(), "add");
            }
        }
        c.ev("payloads");
        c.seen(&(max, &v, &ch.len()));
    }
    fn check<E: std::fmt::Debug>(c: &mut Case, got: Option<Result<Vec<u8>, E>>, want: Option<Vec<u8>>, how: &str) {
        match (got, want) {
            (Some(Ok(g)), Some(w)) => ck!(c, g == w, "payload", "{how}: {} expected {}", show(&g), show(&w)),
            (Some(Err(_)), None) => c.ev("errors"),
            (g, w) => c.fail("verdict", format!("{how}: got {:?}, expected {}", g.map(|g| g.map(|x| show(&x))), w.map(|x| show(&x)).unwrap_or("an error".into()))),
        }
    }
}
fn plain(c: &mut Case) {
    let v = gen::bytes(&mut c.rng, 60);
    let b = gen::mk_bytes(&mut c.rng, &v);
    ck!(c, b.to_base64().as_bytes() == b64(&v), "to_base64", "{}", show(&v));
    let p = b.to_base64_plus();
    ck!(c, p.as_bytes() == if v.is_empty() { b"+".to_vec() } else { b64(&v) }, "to_base64_plus", "{}", show(&v));
    c.ev("plain");
}
/// Payloads of hundreds of chunks.
fn long(c: &mut Case) {
    let max = c.rng.pickv(&[400usize, 400, 4, 100]);
    let n = c.rng.pickv(&[300usize, 5000, 49_000, 70_000, 200_000]) * max.min(100) / 100 + c.rng.below(20);
    let v: Vec<u8> = (0..n).map(|_| c.rng.byte()).collect();
    c.desc = format!("{n} bytes, limit {max}");
    let want = ref_chunks(&v, max);
    let it = ChunkEncoder::new(&v, max, c.rng.coin());
    ckeq!(c, it.len(), want.len(), "len", "");
    let got: Vec<Vec<u8>> = it.map(|a| a.as_bytes().to_vec()).collect();
    ck!(c, got == want, "chunks", "{} chunks expected {}", got.len(), want.len());
    let mut d = ChunkDecoder::new(max);
    for k in 0..2 {
        let mut r = None;
        for (i, x) in want.iter().enumerate() {
            ck!(c, r.is_none(), "early", "before chunk {i} of {}", want.len());
            r = d.add(x);
        }
        match r {
            Some(Ok(b)) => ck!(c, b.as_bytes() == v, "payload", "{} bytes back, time {k}", b.len()),
            r => c.fail("no-payload", format!("{:?}, time {k}", r.map(|r| r.is_ok()))),
        }
    }
    c.ev("long");
    c.seen(&(max, n));
}
pub fn run(ctx: &mut Ctx) {
    ctx.run("long", 1, 4, long);
    ctx.run_all("lengths", 1300, lengths);
    ctx.run("encoder", 6000, 60_000, encoder);
    ctx.run("decoder", 6000, 60_000, decoder);
    ctx.run("plain", 1000, 10_000, plain);
    for (k, n) in [("lengths", 1300), ("chunks", 5000), ("plus", 500), ("payloads", 3000), ("corrupted", 200), ("errors", 100), ("plain", 500)] {
        ctx.require(k, n);
    }
}
