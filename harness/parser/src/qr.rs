//! C27: a QR code prints the data that was last stored.
use crate::nd::Nd;
use crate::stream::any_command;
use crate::util::*;
use qr_code::{EcLevel, QrCode, Version};
use thermal_parser::context::*;
use thermal_parser::graphics::*;

struct Model {
    model: u8,
    ec: u8,
    size: u8,
    /// the data of the stored symbol, its model, level and module size
    stored: Option<(Vec<u8>, u8, u8, u8)>,
}
fn level(ec: u8) -> EcLevel {
    match ec { 49 => EcLevel::M, 50 => EcLevel::Q, 51 => EcLevel::H, _ => EcLevel::L }
}
fn versions(model: u8) -> Vec<Version> {
    match model {
        49 => (1..=14).map(Version::Normal).collect(),
        51 => (1..=4).map(Version::Micro).collect(),
        _ => (1..=40).map(Version::Normal).collect(),
    }
}
/// Is this the symbol of some version of the model that encodes exactly this data?
fn encodes(c: &Code2D, data: &[u8], model: u8, ec: u8) -> bool {
    versions(model).into_iter().filter(|v| v.width() as u32 == c.width).any(|v| {
        QrCode::with_version(data, v, level(ec)).map_or(false, |q| {
            q.to_vec().iter().map(|b| *b as u8).eq(c.points.iter().copied())
        })
    })
}
fn fits(data: &[u8], model: u8, ec: u8) -> bool {
    versions(model).into_iter().any(|v| QrCode::with_version(data, v, level(ec)).is_ok())
}
fn print(ctx: &Context) -> GraphicsCommand {
    let v = parsed(&envelope2d((49, 81), &[48]));
    assert!(v.len() == 1);
    v[0].handler.get_graphics(&v[0], ctx).expect("printing reports something")
}
fn check(ctx: &Context, m: &Model, what: &str) {
    match (print(ctx), &m.stored) {
        (GraphicsCommand::Error(_), None) => {}
        (GraphicsCommand::Code2D(c), Some((d, model, ec, size))) => {
            assert!(c.points.len() as u32 == c.width * c.width, "{}: a square", what);
            assert!(c.point_width == *size as u32 && c.point_height == *size as u32, "{}: modules of {} x {} instead of {}", what, c.point_width, c.point_height, size);
            assert!(encodes(&c, d, *model, *ec), "{}: the symbol is not one of the {} bytes at level {}", what, d.len(), ec);
        }
        (GraphicsCommand::Error(e), Some(_)) => panic!("{}: a symbol was stored: {}", what, e),
        (_, None) => panic!("{}: no symbol was stored", what),
        _ => panic!("{}: prints something else", what),
    }
}
fn data_for(nd: &mut Nd, model: u8, large: bool) -> Vec<u8> {
    let n = if large {
        // around the capacities of all versions and levels
        let v = *nd.pick(&[&QR_BYTES[..]]).get(nd.range(0, QR_BYTES.len() as u32 - 1) as usize).unwrap();
        (v as u32 + nd.range(0, 4)).saturating_sub(2) as usize
    } else {
        nd.range(0, if model == 51 { 20 } else { 60 }) as usize
    };
    let kind = nd.range(0, 3);
    let seed = nd.u8();
    (0..n).map(|i| {
        let k = (i as u8).wrapping_mul(7).wrapping_add(seed);
        match kind { 0 => 48 + k % 10, 1 => b"ABCDEFGHIJ $%*+-./:"[(k % 19) as usize], 2 => k, _ => 97 + k % 26 }
    }).collect()
}
/// bytes that versions hold, level L to H
const QR_BYTES: [u16; 28] = [7, 11, 14, 17, 20, 26, 32, 34, 42, 53, 62, 78, 106, 119, 134, 154, 177, 230, 258, 271, 331, 362, 458, 666, 1273, 1663, 2331, 2953];

fn select(nd: &mut Nd, ctx: &mut Context, m: &mut Model) {
    match nd.range(0, 2) {
        0 => { m.model = nd.pick(&[49, 50, 51]); apply_stream(&envelope2d((49, 65), &[m.model, 0]), ctx); }
        1 => { m.ec = nd.range(48, 51) as u8; apply_stream(&envelope2d((49, 69), &[m.ec]), ctx); }
        _ => { m.size = nd.range(1, 16) as u8; apply_stream(&envelope2d((49, 67), &[m.size]), ctx); }
    }
}
fn store(ctx: &mut Context, m: &mut Model, data: Vec<u8>) -> String {
    if m.model == 51 && crate::known::qr_crate_panics(&data, level(m.ec)) {
        return "known finding: not stored".to_string();
    }
    apply_stream(&envelope2d((49, 80), &[&[48], &data[..]].concat()), ctx);
    let what = format!("store {} bytes, model {} level {} size {}", data.len(), m.model, m.ec, m.size);
    if fits(&data, m.model, m.ec) {
        m.stored = Some((data, m.model, m.ec, m.size));
    }
    what
}
fn start() -> (Context, Model) {
    let ctx = Context::new();
    let m = Model { model: match ctx.code2d.qr_model { QrModel::Model1 => 49, QrModel::Model2 => 50, QrModel::Micro => 51 },
        ec: match ctx.code2d.qr_error_correction { QrErrorCorrection::L => 48, QrErrorCorrection::M => 49, QrErrorCorrection::Q => 50, QrErrorCorrection::H => 51 },
        size: ctx.code2d.qr_size, stored: None };
    (ctx, m)
}

crate::contracts! {
    exec fn c27_history(nd) {
        let (mut ctx, mut m) = start();
        check(&ctx, &m, "power on");
        let n = nd.range(1, 8);
        for _ in 0..n {
            let what = match nd.range(0, 6) {
                0 | 1 => { select(nd, &mut ctx, &mut m); "select".to_string() }
                2 | 3 => { let d = data_for(nd, m.model, false); store(&mut ctx, &mut m, d) }
                4 => {
                    // any other command leaves the symbol alone, except initialize
                    let c = any_command(nd);
                    if c.starts_with(&[0x1b, b'@']) || (c.len() > 6 && c.starts_with(&[0x1d, b'(', b'k'])) {
                        continue;
                    }
                    apply_stream(&c, &mut ctx);
                    format!("{:02x?}", c)
                }
                _ => "print again".to_string(),
            };
            check(&ctx, &m, &what);
        }
    }
    exec fn c27_capacity(nd) {
        // at the edge of what a version holds
        let (mut ctx, mut m) = start();
        m.model = nd.pick(&[49, 50, 51]);
        apply_stream(&envelope2d((49, 65), &[m.model, 0]), &mut ctx);
        m.ec = nd.range(48, 51) as u8;
        apply_stream(&envelope2d((49, 69), &[m.ec]), &mut ctx);
        let first = nd.bool();
        if first {
            store(&mut ctx, &mut m, b"first".to_vec());
        }
        let d = data_for(nd, m.model, true);
        let what = store(&mut ctx, &mut m, d);
        check(&ctx, &m, &what);
    }
}
