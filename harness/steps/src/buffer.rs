//! C18: clearing the print buffer.
use crate::seen::*;
use crate::snap::*;
use std::mem::ManuallyDrop;
use thermal_parser::command::DeviceCommand;
use thermal_parser::graphics::GraphicsCommand;

crate::contracts! {
    bounded 10 fn c18_step_clear(nd) {
        let mut c = fresh();
        c.page_mode.enabled = nd.bool();
        let n = nd.range(0, 2);
        let mut i = 0;
        while i < n {
            c.graphics.buffer_graphics.push(GraphicsCommand::Error(String::new()));
            i += 1;
        }
        let mut want = snap(&c);
        let v = ManuallyDrop::new(Some(vec![DeviceCommand::ClearBufferGraphics]));
        let (c, seen) = step(c, |r| r.verif_devices(&v));
        want.graphics.buffered = 0;
        assert!(snap(&c) == want, "the buffer is emptied, nothing else");
        assert!(seen == Seen { devices: 1, ..NOTHING }, "nothing is printed by that");
    }
}
