//! C18: operations touch no memory but their operands.
use crate::Job;
use crate::ops::{Mem, OPS, Op, Place};
use harness::*;

pub fn jobs_c18(_t: bool) -> Vec<Job> {
    vec![
        ("guard", "native", 4),
        ("guard", "rel", 2),
        ("guard", "noavx512", 1),
        ("guard", "nosha", 1),
        ("guard", "min", 2),
        ("exact", "native", 1),
        ("exact", "rel", 1),
    ]
}

/// Fill what a caller leaves behind — dead stack below us and every vector
/// register — with a pattern, so that an operation which reads either by mistake
/// gives an answer that depends on it.
#[inline(never)]
pub fn dirty(pat: u8) {
    let mut a = std::mem::MaybeUninit::<[u8; 96 * 1024]>::uninit();
    // SAFETY: fills a local array
    unsafe {
        std::ptr::write_bytes(a.as_mut_ptr().cast::<u8>(), pat, 96 * 1024);
        std::hint::black_box(&mut a);
        let v = [pat; 64];
        if is_x86_feature_detected!("avx512f") {
            std::arch::asm!(
                "vmovdqu64 zmm0, [{v}]", "vmovdqa64 zmm1, zmm0", "vmovdqa64 zmm2, zmm0", "vmovdqa64 zmm3, zmm0",
                "vmovdqa64 zmm4, zmm0", "vmovdqa64 zmm5, zmm0", "vmovdqa64 zmm6, zmm0", "vmovdqa64 zmm7, zmm0",
                "vmovdqa64 zmm8, zmm0", "vmovdqa64 zmm9, zmm0", "vmovdqa64 zmm10, zmm0", "vmovdqa64 zmm11, zmm0",
                "vmovdqa64 zmm12, zmm0", "vmovdqa64 zmm13, zmm0", "vmovdqa64 zmm14, zmm0", "vmovdqa64 zmm15, zmm0",
                "vmovdqa64 zmm16, zmm0", "vmovdqa64 zmm17, zmm0", "vmovdqa64 zmm18, zmm0", "vmovdqa64 zmm19, zmm0",
                "vmovdqa64 zmm20, zmm0", "vmovdqa64 zmm21, zmm0", "vmovdqa64 zmm22, zmm0", "vmovdqa64 zmm23, zmm0",
                "vmovdqa64 zmm24, zmm0", "vmovdqa64 zmm25, zmm0", "vmovdqa64 zmm26, zmm0", "vmovdqa64 zmm27, zmm0",
                "vmovdqa64 zmm28, zmm0", "vmovdqa64 zmm29, zmm0", "vmovdqa64 zmm30, zmm0", "vmovdqa64 zmm31, zmm0",
                "kmovw k1, eax", "kmovw k2, eax", "kmovw k3, eax", "kmovw k4, eax", "kmovw k5, eax", "kmovw k6, eax", "kmovw k7, eax",
                v = in(reg) v.as_ptr(), in("eax") pat as u32 * 0x0101_0101,
                out("zmm0") _, out("zmm1") _, out("zmm2") _, out("zmm3") _, out("zmm4") _, out("zmm5") _, out("zmm6") _, out("zmm7") _,
                out("zmm8") _, out("zmm9") _, out("zmm10") _, out("zmm11") _, out("zmm12") _, out("zmm13") _, out("zmm14") _, out("zmm15") _,
                out("zmm16") _, out("zmm17") _, out("zmm18") _, out("zmm19") _, out("zmm20") _, out("zmm21") _, out("zmm22") _, out("zmm23") _,
                out("zmm24") _, out("zmm25") _, out("zmm26") _, out("zmm27") _, out("zmm28") _, out("zmm29") _, out("zmm30") _, out("zmm31") _,
                out("k1") _, out("k2") _, out("k3") _, out("k4") _, out("k5") _, out("k6") _, out("k7") _,
            );
        }
    }
}

/// processor state every x86-64 function must leave as it found it:
/// direction and alignment-check flags, MXCSR control bits, x87 control word,
/// and an empty x87/MMX stack
fn cpu_state() -> [u32; 4] {
    let mut f: u64;
    let mut fx = Fx([0; 512]);
    #[repr(align(16))]
    struct Fx([u8; 512]);
    // SAFETY: reads flags; saves the legacy state to a local area of the size required
    unsafe {
        std::arch::asm!("pushfq", "pop {f}", f = out(reg) f);
        std::arch::asm!("fxsave64 [{p}]", p = in(reg) fx.0.as_mut_ptr());
    }
    [
        f as u32 & 0x4_0400,
        u16::from_le_bytes([fx.0[0], fx.0[1]]) as u32,
        fx.0[4] as u32,
        u32::from_le_bytes(fx.0[24..28].try_into().unwrap()) & 0xffc0,
    ]
}

/// one operation with its operands in one place
fn one(m: &mut Mem, op: &Op, seed: u64, place: Place) -> Result<Vec<u8>, PanicInfo> {
    m.begin(place);
    let mut r = Rng::new(seed);
    dirty(match place {
        Place::Heap => 0,
        Place::Tail => 0xff,
        Place::Head => 0x5a,
        Place::Mid(o) => o as u8,
    });
    let before = cpu_state();
    let d = guard(|| (op.run)(m, &mut r));
    let after = cpu_state();
    m.end();
    if before != after {
        m.problems.push(format!("processor state (flags, x87 control, x87 tags, MXCSR) {before:x?} became {after:x?}"));
    }
    d
}

fn rounds(ctx: &Ctx, op: &Op, quick_units: usize, thorough_units: usize) -> usize {
    (ctx.n(quick_units, thorough_units) / (op.cost + 1)).max(4)
}

pub fn run_c18(ctx: &mut Ctx) {
    let mut m = Mem::new();
    let mut rng = ctx.rng("mem");
    let sect = ctx.section.clone();
    match sect.as_str() {
        // guard pages and canaries around every operand
        "guard" => {
            let mut problems = 0;
            for op in OPS {
                for _ in 0..rounds(ctx, op, 4500, 100_000) {
                    if !ctx.more() {
                        break;
                    }
                    let seed = rng.u64();
                    ctx.case(&format!("heap:{}", op.name), format!("{} seed={seed:#x}", op.name));
                    let base = one(&mut m, op, seed, Place::Heap);
                    let base = match base {
                        Ok(b) => b,
                        Err(p) => {
                            ctx.fail("panic", format!("{} panics at {}: {}", op.name, p.loc, p.msg));
                            continue;
                        }
                    };
                    let desc = m.desc.clone();
                    let off = rng.below(64);
                    for place in [Place::Tail, Place::Head, Place::Mid(off)] {
                        let label = match place {
                            Place::Tail => "ends-at-guard-page",
                            Place::Head => "starts-at-guard-page",
                            _ => "between-canaries",
                        };
                        ctx.case(&format!("{label}:{}", op.name), format!("{} seed={seed:#x} {place:?} {desc}", op.name));
                        match one(&mut m, op, seed, place) {
                            Ok(d) => {
                                ctx.eq("placement-dependent", &d, &base);
                            }
                            Err(p) => ctx.fail("panic", format!("{} panics at {}: {}", op.name, p.loc, p.msg)),
                        }
                        for p in std::mem::take(&mut m.problems) {
                            problems += 1;
                            ctx.fail("stray-write", p);
                        }
                    }
                }
            }
            ctx.observe("operand buffers placed", m.buffers);
            ctx.observe("canary bytes checked", m.canary_bytes);
            ctx.observe("stray writes", problems);
        }
        // every length across the places where code paths change, at both guard pages
        "exact" => exact(ctx, &mut m, &mut rng),
        // heap only, for AddressSanitizer and memcheck
        "heap" | "asan" => {
            let (q, t) = if sect == "asan" { (6000, 60_000) } else { (150, 2500) };
            for op in OPS {
                for _ in 0..rounds(ctx, op, q, t) {
                    if !ctx.more() {
                        break;
                    }
                    let seed = rng.u64();
                    ctx.case(&format!("heap:{}", op.name), format!("{} seed={seed:#x}", op.name));
                    if let Err(p) = one(&mut m, op, seed, Place::Heap) {
                        ctx.fail("panic", format!("{} panics at {}: {}", op.name, p.loc, p.msg));
                    }
                    let d = m.desc.clone();
                    ctx.crumb(&d);
                    for p in std::mem::take(&mut m.problems) {
                        ctx.fail("stray-write", p);
                    }
                }
            }
            ctx.observe("operand buffers placed", m.buffers);
        }
        s => panic!("section {s}"),
    }
}

fn exact(ctx: &mut Ctx, m: &mut Mem, rng: &mut Rng) {
    use crate::aead::{ALGS, Alg};
    use crate::hash::ALL;
    for alg in ALGS {
        let key = rng.bytes(alg.key_len());
        let k = crate::aead::Real::new(alg, &key);
        for pl in 0..ctx.n(560, 2200) {
            if !ctx.more() {
                return;
            }
            let nonce = rng.bytes(alg.nonce_len());
            let pt = rng.bytes(pl);
            let al = if pl % 3 == 0 { pl } else { rng.below(70) };
            let aad = rng.bytes(al);
            let mut want = pt.clone();
            let mut wt = [0; 16];
            ctx.case("aead-lengths", format!("{} pt={pl} aad={al}", alg.name()));
            k.enc(&nonce, &aad, &mut want, &mut wt);
            for place in [Place::Tail, Place::Head] {
                m.begin(place);
                let n = m.inp(&nonce);
                let a = m.inp(&aad);
                let b = m.buf(&pt);
                let t = m.buf(&[0; 16]);
                k.enc(n, a, b, t.try_into().unwrap());
                ctx.eq("placement-dependent", b, &want);
                ctx.eq("placement-dependent", t, &wt);
                let tt = m.inp(&wt);
                let ok = k.dec(n, a, b, tt);
                ctx.check(ok && *b == pt[..], "placement-dependent", || "decryption".into());
                m.end();
                for p in std::mem::take(&mut m.problems) {
                    ctx.fail("stray-write", p);
                }
            }
        }
        let _ = Alg::Gcm128;
    }
    for h in ALL {
        for l in 0..ctx.n(700, 2500) {
            if !ctx.more() {
                return;
            }
            let x = rng.bytes(l);
            let cut = rng.below(l + 1);
            ctx.case("hash-lengths", format!("{} len={l} cut={cut}", h.name()));
            let want = crate::hash::real(h, &[&x], &[64]);
            for place in [Place::Tail, Place::Head] {
                m.begin(place);
                let a = m.inp(&x[..cut]);
                let b = m.inp(&x[cut..]);
                let got = crate::hash::real(h, &[a, b], &[64]);
                ctx.eq("placement-dependent", &got, &want);
                m.end();
                for p in std::mem::take(&mut m.problems) {
                    ctx.fail("stray-write", p);
                }
            }
        }
    }
    ctx.observe("operand buffers placed", m.buffers);
    ctx.observe("canary bytes checked", m.canary_bytes);
}
