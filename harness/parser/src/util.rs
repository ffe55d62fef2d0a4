use std::mem::ManuallyDrop;
use thermal_parser::command::*;
use thermal_parser::context::*;

/// A command of the ESC/POS set after it has been offered the given parameter bytes.
pub fn fed(c: Command, data: &[u8]) -> ManuallyDrop<Command> {
    let mut c = ManuallyDrop::new(c);
    let mut i = 0;
    while i < data.len() {
        c.push(data[i]);
        i += 1;
    }
    c
}
/// Runs a command the way the renderer does: the context effect of a fully parsed command.
/// Natively its bytes go through the parser.
#[cfg(kani)]
pub fn apply(c: Command, data: &[u8], ctx: &mut Context) {
    let c = fed(c, data);
    c.handler.apply_context(&c, ctx);
}
#[cfg(not(kani))]
pub fn apply(c: Command, data: &[u8], ctx: &mut Context) {
    let mut bytes = c.commands.to_vec();
    bytes.extend_from_slice(data);
    let v = parsed(&bytes);
    assert!(v.len() == 1, "the command takes its parameters");
    v[0].handler.apply_context(&v[0], ctx);
}
/// As `apply`, for a subcommand (its parameters are delivered as one block of data).
pub fn apply_data(c: Command, data: Vec<u8>, ctx: &mut Context) {
    let mut c = ManuallyDrop::new(c);
    c.data = data;
    c.handler.apply_context(&c, ctx);
}
pub fn devices(c: &Command, ctx: &Context) -> ManuallyDrop<Option<Vec<DeviceCommand>>> {
    ManuallyDrop::new(c.handler.get_device_command(c, ctx))
}

/// GS ( k: the bytes of a 2D code command.
pub fn envelope2d(sel: (u8, u8), data: &[u8]) -> Vec<u8> {
    let n = data.len() + 2;
    let mut v = vec![0x1d, b'(', b'k', (n % 256) as u8, (n / 256) as u8, sel.0, sel.1];
    v.extend_from_slice(data);
    v
}
/// GS ( L: the bytes of a graphics command.
pub fn envelope_graphics(function: u8, data: &[u8]) -> Vec<u8> {
    let n = data.len() + 2;
    let mut v = vec![0x1d, b'(', b'L', (n % 256) as u8, (n / 256) as u8, 48, function];
    v.extend_from_slice(data);
    v
}
/// The commands of a byte stream, without the begin and end markers.
#[cfg(not(kani))]
pub fn parsed(bytes: &[u8]) -> Vec<Command> {
    let mut v = thermal_parser::parse_esc_pos(&bytes.to_vec());
    assert!(v.len() >= 2, "begin and end markers");
    v.pop();
    v.remove(0);
    v
}
/// Parses a byte stream and applies the context effect of each of its commands.
#[cfg(not(kani))]
pub fn apply_stream(bytes: &[u8], c: &mut Context) {
    for k in parsed(bytes) {
        k.handler.apply_context(&k, c);
    }
}
