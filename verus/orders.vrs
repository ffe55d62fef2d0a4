//@meta rlimit 6
//@include command.inc
//@include printer.inc
verus! {
//@use thermal_parser/src/command.rs
//@item enum DeviceCommand
pub open spec fn par(d: Seq<u8>, i: int, or: u8) -> u8 { if i < d.len() { d[i] } else { or } }
pub open spec fn num(n: u8, m: u8) -> bool { n == m || n == m + 48 }
pub open spec fn listed(d: Option<Vec<DeviceCommand>>) -> Option<Seq<DeviceCommand>> {
    match d { Some(v) => Some(v@), None => None }
}
/// the device commands, one by one
pub open spec fn asks(r: Option<Vec<DeviceCommand>>, w: Option<Seq<DeviceCommand>>) -> bool {
    match (r, w) { (Some(v), Some(s)) => v@ =~= s, (None, None) => true, _ => false }
}
mod set_character_size {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_character_size.rs
//@fn parse_stretch
//@ret r
//@spec
    ensures r.0 == value / 16 % 8 + 1, r.1 == value % 8 + 1
//@at begin
    proof {
        assert(forall |v: u8| #[trigger] (0b00000111u8 & v) == v % 8) by (bit_vector);
        assert(forall |v: u8| #[trigger] ((0b01110000u8 & v) >> 4u8) == v / 16 % 8) by (bit_vector);
        assert((0b01110000u8 & value) >> 4u8 == value / 16 % 8) by (bit_vector);
    }
//@end
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, Some(seq![DeviceCommand::SetTextWidth((par(d, 0, 0) / 16 % 8 + 1) as u8), DeviceCommand::SetTextHeight((par(d, 0, 0) % 8 + 1) as u8)])) })
//@end
}
}
mod set_page_mode {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_page_mode.rs
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, Some(seq![DeviceCommand::BeginPageMode])) })
//@end
}
}
mod formfeed {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/commands/formfeed.rs
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, if c.page_mode.enabled { Some(seq![DeviceCommand::EndPageMode, DeviceCommand::PrintPageMode]) } else { Some(seq![DeviceCommand::EndPrint]) }) })
//@end
}
}
mod feed_and_cut {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/commands/feed_and_cut.rs
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, ({
        let (m, n) = (par(d, 0, 0), par(d, 1, 0));
        if num(m, 0) { Some(seq![DeviceCommand::FullCut]) }
        else if num(m, 1) { Some(seq![DeviceCommand::PartialCut]) }
        else if m == 65 || m == 97 || m == 103 { Some(seq![DeviceCommand::FullCut, DeviceCommand::Feed(n as i16)]) }
        else if m == 66 || m == 98 || m == 104 { Some(seq![DeviceCommand::PartialCut, DeviceCommand::Feed(n as i16)]) }
        else { None }
    })) })
//@end
}
}
mod end_print {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/commands/end_print.rs
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, Some(seq![DeviceCommand::EndPrint])) })
//@end
}
}
mod begin_print {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/commands/begin_print.rs
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, Some(seq![DeviceCommand::BeginPrint])) })
//@end
}
}
mod cancel {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/commands/cancel.rs
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, Some(seq![DeviceCommand::Cancel])) })
//@end
}
}
mod page_mode_print_data {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/commands/page_mode_print_data.rs
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, if c.page_mode.enabled { Some(seq![DeviceCommand::PrintPageMode]) } else { None }) })
//@end
}
}
mod select_standard_mode {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/commands/select_standard_mode.rs
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, if c.page_mode.enabled { Some(seq![DeviceCommand::EndPageMode]) } else { None }) })
//@end
}
}
mod page_mode_print_area {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/commands/page_mode_print_area.rs
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, if c.page_mode.enabled { Some(seq![DeviceCommand::ChangePageArea]) } else { None }) })
//@end
}
}
mod page_mode_print_direction {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/commands/page_mode_print_direction.rs
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, if c.page_mode.enabled { Some(seq![DeviceCommand::ChangePageModeDirection]) } else { None }) })
//@end
}
}
mod print_and_feed {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/commands/print_and_feed.rs
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, Some(seq![DeviceCommand::Feed(par(d, 0, 0) as i16)])) })
//@end
}
}
mod print_and_feed_lines {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/commands/print_and_feed_lines.rs
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, Some(seq![DeviceCommand::FeedLine(par(d, 0, 0) as i16)])) })
//@end
}
}
mod print_and_reverse_feed_lines {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/commands/print_and_reverse_feed_lines.rs
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, Some(seq![DeviceCommand::FeedLine((0 - par(d, 0, 0)) as i16)])) })
//@end
}
}
mod set_justification {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/commands/set_justification.rs
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, Some(seq![DeviceCommand::Justify(if num(par(d, 0, 0), 1) { TextJustify::Center } else if num(par(d, 0, 0), 2) { TextJustify::Right } else { TextJustify::Left })])) })
//@end
}
}
mod print_buffer_graphics {
use super::*;
use super::DeviceCommand::*;
pub struct Handler;
//@use thermal_parser/src/subcommands/gs_graphics/print_buffer_graphics.rs
impl Handler {
//@fn CommandHandler for Handler::get_device_command
//@ret r
//@spec
    ensures ({ let c = *context; let d = command.data@; asks(r, Some(seq![DeviceCommand::ClearBufferGraphics])) })
//@end
}
}
}
fn main() {}
