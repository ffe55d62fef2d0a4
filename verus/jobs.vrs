//@meta rlimit 10
//@meta assume what a handler yields (text, graphics, device commands, a changed printer) is a function of the command and the printer; device commands depend on the printer through page mode and the power-on state only (each handler that gives any is under contract here or executed)
//@meta assume printing the pending text leaves none, keeps page mode and the power-on state, and does nothing when there is none (proved in the unit layout)
//@meta assume Renderer::process_device_commands is the fold of its device commands (proved in the unit devices, thorough tier; one by one under Kani)
//@include job.inc
verus! {
//@use thermal_renderer/src/renderer.rs
/// what the printer does for a command is decided after the pending text is out, and style commands keep the text pending
proof fn c08_text_first<Output>(j: Job<Output>, c: Command)
    ensures
        flushes(c.kind) ==> performed(j, c) == carried_out(text_printed(j), c),
        c.kind == CommandType::TextStyle && asked(c, applied(c, j.printer)) == None::<Seq<DeviceCommand>> ==> performed(j, c).pending == j.pending,
        c.kind == CommandType::Text ==> performed(j, c).printer == j.printer && performed(j, c).renderer == j.renderer,
{ }
impl<Output> Renderer<Output> {
    #[verifier::external_body]
    fn process_text(&mut self)
        ensures
            job(*final(self)) == text_printed(job(*old(self))),
            final(self).context.page_mode.enabled == old(self).context.page_mode.enabled,
            final(self).context.default == old(self).context.default,
    { unimplemented!() }
    #[verifier::external_body]
    fn process_image(&mut self, image: &mut Image) ensures job(*final(self)) == image_printed(job(*old(self)), *old(image)) { unimplemented!() }
    #[verifier::external_body]
    fn process_barcode(&mut self, barcode: &AnyBarcode) ensures job(*final(self)) == barcode_printed(job(*old(self)), *barcode) { unimplemented!() }
    #[verifier::external_body]
    fn process_code_2d(&mut self, code_2d: &AnyCode2D) ensures job(*final(self)) == code2d_printed(job(*old(self)), *code_2d) { unimplemented!() }
//@fn Renderer::log_error
//@spec
    ensures job(*final(self)) == failed(job(*old(self)), kind, description)
//@end
//@fn Renderer::collect_text
//@spec
    ensures job(*final(self)) == (Job { pending: old(self).span_buffer@.push(text), ..job(*old(self)) })
//@end
    #[verifier::external_body]
    fn process_device_commands(&mut self, device_commands: &Devices)
        ensures job(*final(self)) == devices_done(job(*old(self)), listed(*device_commands))
    { unimplemented!() }
//@fn Renderer::process_command
//@sub get_graphics(command, &mut self.context) => get_graphics(command, &self.context)
//@sub get_device_command(command, &mut self.context) => get_device_command(command, &self.context)
//@spec
    ensures job(*final(self)) == performed(job(*old(self)), *command)
//@end
}
}
fn main() {}
