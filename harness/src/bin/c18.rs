//! C18: float bit and component conversions are lossless.
use embedded_audio_tools::convert::*;
use pbt::*;

fn check(b: u32) -> Res {
    let x = f32::from_bits(b);
    let raw = x.to_raw_word();
    ensure!(raw == b, "to_raw_word of {b:08x} is {raw:08x}");
    let back = f32::from_raw_word(b).to_bits();
    ensure!(back == b, "from_raw_word({b:08x}) has bits {back:08x}");
    let (sign, exp, man) = (b >> 31 == 1, (b >> 23) as u8, b & 0x7F_FFFF);
    for (k, c) in [x.to_f32_components(), b.to_f32_components()].into_iter().enumerate() {
        let from = ["float", "word"][k];
        ensure!(c.sign == sign && c.exponent == exp && c.mantissa == man, "components of {from} {b:08x}: {c:?}");
        if k == 0 {
            let r = f32::from_f32_components(c).to_bits();
            ensure!(r == b, "float {b:08x} recomposed to a float gives {r:08x}");
            let r = u32::from_f32_components(x.to_f32_components());
            ensure!(r == b, "float {b:08x} recomposed to a word gives {r:08x}");
        } else {
            let r = u32::from_f32_components(c);
            ensure!(r == b, "word {b:08x} recomposed to a word gives {r:08x}");
            let r = f32::from_f32_components(b.to_f32_components()).to_bits();
            ensure!(r == b, "word {b:08x} recomposed to a float gives {r:08x}");
        }
    }
    Ok(())
}

/// All words, in an order that samples them evenly if cut short.
fn words(i: u64) -> Result<bool, Fail> {
    let b = (i as u32).wrapping_mul(0x9E37_79B1);
    check(b)?;
    Ok(b & 0x7FFF_FFFF != 0)
}

fn special(s: &mut Src, cx: &mut Ctx) -> Res {
    let b = match s.weighted(&[2, 1, 1]) {
        0 => s.f32_any().to_bits(),
        1 => (s.below(2) as u32) << 31 | (s.pick(&[0u32, 1, 127, 128, 254, 255])) << 23 | s.pick(&[0u32, 1, 0x40_0000, 0x3F_FFFF, 0x7F_FFFF, 0x7F_FFFE]),
        _ => 1 << s.below(32) | 1 << s.below(32),
    };
    cx.note(|| format!("{b:08x}"));
    cx.nontrivial_if(b & 0x7FFF_FFFF != 0);
    check(b)
}

fn main() {
    pbt::main("C18", &[sweep("words", 1 << 32, 1 << 32, words), rand("special", 500_000, 5_000_000, special)]);
}
