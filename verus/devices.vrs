//@meta rlimit 40
//@meta assume Context::newline, reverse_newline and feed (proved in the unit layout), set_tab_len and PageModeContext::apply_logical_area (proved in the unit settings) are functions of their arguments
//@meta assume the position after a printed page is below 2^32
//@include job.inc
verus! {
//@use thermal_renderer/src/renderer.rs
impl<Output> Renderer<Output> {
//@fn Renderer::log_error
//@spec
    ensures job(*final(self)) == failed(job(*old(self)), kind, description)
//@end
//@fn Renderer::process_device_commands
//@sub self.context.graphics.buffer_graphics.clear() => verif_clear(&mut self.context.graphics.buffer_graphics)
//@sub self.context.graphics.render_area.y += self.context.page_mode.page_area.h => self.context.graphics.render_area.y = verif_add(self.context.graphics.render_area.y, self.context.page_mode.page_area.h)
//@spec
    ensures job(*final(self)) == devices_done(job(*old(self)), listed(*device_commands))
//@loop 1 it=it for device_command in device_commands
    invariant
        it.seq().len() == device_commands@.len(), forall |i: int| 0 <= i < device_commands@.len() ==> *#[trigger] it.seq()[i] == device_commands@[i],
        job(*self) == all_done(job(*old(self)), device_commands@.subrange(0, it.index() as int)),
//@at before 1
    proof { step_all(job(*old(self)), device_commands@, 0); }
//@at begin 1
    let ghost pre = job(*self);
    proof { step_all(job(*old(self)), device_commands@, it.index() as int); }
    let ghost goal = device_effect(pre, *device_command);
    proof { one_device(pre, *device_command); }
//@at end 1
    proof { assert(job(*self) == goal); }
//@at after 1
    proof { step_all(job(*old(self)), device_commands@, 0); }
//@loop 2 it=e for error in errors
    invariant
        job(*self) == failed_all(tell(before, Told::Errors), e.seq().subrange(0, e.index() as int)),
        e.seq() == errors_of(before.renderer),
        before == tell(pre, Told::Device(*device_command)), goal == device_effect(pre, *device_command), *device_command == DeviceCommand::EndPrint,
//@at before #1 for error in errors
    let ghost before = tell(pre, Told::Device(*device_command));
    proof { step_failed(tell(before, Told::Errors), errors_of(before.renderer), 0); }
//@at begin 2
    proof { step_failed(tell(before, Told::Errors), errors_of(before.renderer), e.index() as int); }
//@at after 2
    proof { step_failed(tell(before, Told::Errors), errors_of(before.renderer), 0); }
//@end
}
}
fn main() {}
