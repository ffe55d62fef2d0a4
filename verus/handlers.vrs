//@meta rlimit 6
//@include command.inc
verus! {
//@use thermal_parser/src/constants.rs
//@item static NUL

pub open spec fn le16(a: u8, b: u8) -> int { a as int + 256 * b as int }

// The contract of AnyHandler::push, get_command_bytes and get_subcommand, once for each type that
// implements them.  Per type: taken_by (the bytes taken so far, from its fields and the data of the
// command), keeps (what it maintains) and takes (does it want another byte after these).

// ---------------------------------------------------------------- the defaults of the trait
mod defaults {
use super::*;
pub struct Plain;
impl Plain {
//@use thermal_parser/src/command.rs
//@fn trait CommandHandler::push
//@ret r
//@spec
    ensures !r, *final(self) == *old(self), *final(_command) == *old(_command),
//@end
//@fn trait CommandHandler::get_subcommand
//@ret r
//@spec
    ensures r is None, *final(self) == *old(self),
//@end
//@fn trait CommandHandler::get_command_bytes
//@ret r
//@spec
    ensures r.0@ + r.1@ == command.commands@ + command.data@,
//@end
}
}

// ---------------------------------------------------------------- bytes that are no command
mod unknown {
use super::*;
pub struct Handler;
impl Handler {
//@use thermal_parser/src/commands/unknown.rs
//@fn CommandHandler for Handler::get_command_bytes
//@ret r
//@spec
    ensures r.0@ + r.1@ == command.data@,
//@end
}
}

// ---------------------------------------------------------------- ESC *
mod bit_image {
use super::*;
//@use thermal_parser/src/commands/bit_image.rs
//@item struct Handler public
pub open spec fn taken_by(h: Handler, d: Seq<u8>) -> Seq<u8> { h.params@ + d }
pub open spec fn deep(m: u8) -> bool { m == 32 || m == 33 }
/// the payload announced by the header
pub open spec fn payload(t: Seq<u8>) -> int { le16(t[1], t[2]) * (if deep(t[0]) { 3int } else { 1 }) }
pub open spec fn takes(t: Seq<u8>) -> bool { t.len() < 3 || t.len() - 3 < payload(t) }
pub open spec fn keeps(h: Handler, d: Seq<u8>) -> bool {
    &&& h.col_encoded
    &&& !h.accept_data ==> h.params@.len() == 0 && d.len() < 3 && h.size == 0 && h.stretch == (1u8, 1u8)
    &&& h.accept_data ==> {
        let p = h.params@;
        &&& p.len() == 3
        &&& h.capacity == payload(p) && h.size == d.len() && h.size <= h.capacity
        &&& h.width == le16(p[1], p[2])
        &&& h.height == (if deep(p[0]) { 24u32 } else { 8u32 })
        &&& h.stretch == (if p[0] == 0 || p[0] == 32 { (2u8, 3u8) } else { (1u8, 1u8) })
    }
}
//@fn new
//@ret r
//@sub -> Command => -> Handler
//@sub Command::new(... Box::new($1),) => $1
//@spec
    ensures keeps(r, Seq::<u8>::empty()), taken_by(r, Seq::<u8>::empty()) == Seq::<u8>::empty(),
//@end
impl Handler {
//@fn CommandHandler for Handler::push
//@ret r
//@spec
    requires keeps(*old(self), old(data)@)
    ensures
        keeps(*final(self), final(data)@),
        r == takes(taken_by(*old(self), old(data)@)),
        r ==> taken_by(*final(self), final(data)@) == taken_by(*old(self), old(data)@).push(byte),
        !r ==> *final(self) == *old(self) && *final(data) == *old(data),
//@at begin
    let ghost t0 = taken_by(*self, data@);
    proof {
        assert(t0.len() == self.params@.len() + data@.len());
        assert(forall |x: u8| self.params@ + #[trigger] data@.push(x) =~= t0.push(x));
        if self.accept_data { assert(t0[0] == self.params@[0] && t0[1] == self.params@[1] && t0[2] == self.params@[2]); }
    }
//@at after data.clear();
    proof { assert(taken_by(*self, data@) =~= t0.push(byte)); }
//@end
//@fn CommandHandler for Handler::get_command_bytes
//@ret r
//@sub data.extend(command.data.clone()) => data.extend_from_slice(&command.data)
//@spec
    ensures r.0@ + r.1@ == command.commands@ + taken_by(*self, command.data@),
//@end
}
}

// ---------------------------------------------------------------- GS v 0
mod raster_bit_image {
use super::*;
//@use thermal_parser/src/commands/raster_bit_image.rs
//@item struct Handler public
pub open spec fn taken_by(h: Handler, d: Seq<u8>) -> Seq<u8> { h.params@ + d }
pub open spec fn payload(t: Seq<u8>) -> int { le16(t[1], t[2]) * le16(t[3], t[4]) }
pub open spec fn takes(t: Seq<u8>) -> bool { t.len() < 5 || t.len() - 5 < payload(t) }
pub open spec fn keeps(h: Handler, d: Seq<u8>) -> bool {
    &&& !h.accept_data ==> h.params@.len() == 0 && d.len() < 5
    &&& h.accept_data ==> {
        let p = h.params@;
        &&& p.len() == 5
        &&& h.capacity == payload(p) && d.len() <= h.capacity
        &&& h.scaling == p[0] && h.width == 8 * le16(p[1], p[2]) && h.height == le16(p[3], p[4])
    }
}
//@fn new
//@ret r
//@sub -> Command => -> Handler
//@sub Command::new(... Box::new($1),) => $1
//@spec
    ensures keeps(r, Seq::<u8>::empty()), taken_by(r, Seq::<u8>::empty()) == Seq::<u8>::empty(),
//@end
impl Handler {
//@fn CommandHandler for Handler::push
//@ret r
//@spec
    requires keeps(*old(self), old(data)@)
    ensures
        keeps(*final(self), final(data)@),
        r == takes(taken_by(*old(self), old(data)@)),
        r ==> taken_by(*final(self), final(data)@) == taken_by(*old(self), old(data)@).push(byte),
        !r ==> *final(self) == *old(self) && *final(data) == *old(data),
//@at begin
    let ghost t0 = taken_by(*self, data@);
    proof {
        assert(t0.len() == self.params@.len() + data@.len());
        assert(forall |x: u8| self.params@ + #[trigger] data@.push(x) =~= t0.push(x));
        if self.accept_data { assert(forall |i: int| 0 <= i < 5 ==> #[trigger] t0[i] == self.params@[i]); }
        assert(forall |a: int, b: int| 0 <= a <= 65535 && 0 <= b <= 65535 ==> 0 <= #[trigger] (a * b) <= 65535 * 65535) by(nonlinear_arith);
    }
//@at after data.clear();
    proof { assert(taken_by(*self, data@) =~= t0.push(byte)); }
//@end
//@fn CommandHandler for Handler::get_command_bytes
//@ret r
//@sub data.extend(command.data.clone()) => data.extend_from_slice(&command.data)
//@spec
    ensures r.0@ + r.1@ == command.commands@ + taken_by(*self, command.data@),
//@end
}
}

// ---------------------------------------------------------------- GS V
mod feed_and_cut {
use super::*;
pub struct Handler;
pub open spec fn taken_by(h: Handler, d: Seq<u8>) -> Seq<u8> { d }
/// the plain cuts have no feed amount
pub open spec fn plain_cut(m: u8) -> bool { m == 0 || m == 1 || m == 48 || m == 49 }
pub open spec fn takes(t: Seq<u8>) -> bool { t.len() == 0 || t.len() == 1 && !plain_cut(t[0]) }
impl Handler {
//@use thermal_parser/src/commands/feed_and_cut.rs
//@fn CommandHandler for Handler::push
//@ret r
//@spec
    ensures
        r == takes(taken_by(*old(self), old(data)@)),
        r ==> taken_by(*final(self), final(data)@) == taken_by(*old(self), old(data)@).push(byte),
        !r ==> *final(self) == *old(self) && *final(data) == *old(data),
//@end
}
}

// ---------------------------------------------------------------- GS ( N
mod set_character_effects {
use super::*;
//@use thermal_parser/src/commands/set_character_effects.rs
//@item struct Handler public
pub open spec fn taken_by(h: Handler, d: Seq<u8>) -> Seq<u8> { d }
/// the announced number of parameters, at least one
pub open spec fn takes(t: Seq<u8>) -> bool { t.len() < 3 || t.len() - 2 < le16(t[0], t[1]) }
pub open spec fn keeps(h: Handler, d: Seq<u8>) -> bool { d.len() >= 3 ==> h.capacity == le16(d[0], d[1]) + 2 }
//@fn new
//@ret r
//@sub -> Command => -> Handler
//@sub Command::new(... Box::new($1),) => $1
//@spec
    ensures keeps(r, Seq::<u8>::empty()), taken_by(r, Seq::<u8>::empty()) == Seq::<u8>::empty(),
//@end
impl Handler {
//@fn CommandHandler for Handler::push
//@ret r
//@spec
    requires keeps(*old(self), old(command)@)
    ensures
        keeps(*final(self), final(command)@),
        r == takes(taken_by(*old(self), old(command)@)),
        r ==> taken_by(*final(self), final(command)@) == taken_by(*old(self), old(command)@).push(byte),
        !r ==> *final(self) == *old(self) && *final(command) == *old(command),
//@end
}
}

// ---------------------------------------------------------------- GS k
//@use thermal_parser/src/commands/barcode.rs
//@item enum BarcodeType public structural
//@item enum EncodingFunction public structural
mod barcode {
use super::*;
//@item struct BarcodeHandler public
pub open spec fn taken_by(h: BarcodeHandler, d: Seq<u8>) -> Seq<u8> {
    h.raw_params@ + d + (if h.terminated { seq![0u8] } else { Seq::<u8>::empty() })
}
pub open spec fn nul_form(m: u8) -> bool { m <= 6 }
pub open spec fn counted_form(m: u8) -> bool { 65 <= m <= 79 }
/// everything up to the NUL, or the announced number of bytes
pub open spec fn takes(t: Seq<u8>) -> bool {
    if t.len() == 0 { true }
    else if nul_form(t[0]) { t.len() == 1 || t.last() != 0 }
    else if counted_form(t[0]) { t.len() == 1 || t.len() - 2 < t[1] }
    else { false }
}
pub open spec fn kind_of(m: u8) -> BarcodeType {
    if m == 0 || m == 65 { BarcodeType::UpcA }
    else if m == 1 || m == 66 { BarcodeType::UpcE }
    else if m == 2 || m == 67 { BarcodeType::Ean13 }
    else if m == 3 || m == 68 { BarcodeType::Ean8 }
    else if m == 4 || m == 69 { BarcodeType::Code39 }
    else if m == 5 || m == 70 { BarcodeType::Itf }
    else if m == 6 || m == 71 { BarcodeType::Nw7Codabar }
    else if m == 72 { BarcodeType::Code93 }
    else if m == 73 { BarcodeType::Code128 }
    else if m == 80 { BarcodeType::Gs1128 }
    else if m == 81 { BarcodeType::Gs1DatabarOmni }
    else if m == 82 { BarcodeType::Gs1DatabarTruncated }
    else if m == 83 { BarcodeType::Gs1DatabarLimited }
    else if m == 84 { BarcodeType::Gs1DatabarExpanded }
    else if m == 85 { BarcodeType::Code128Auto }
    else { BarcodeType::Unknown }
}
pub open spec fn keeps(h: BarcodeHandler, d: Seq<u8>) -> bool {
    &&& !h.accept_data ==> h.raw_params@.len() == 0 && d.len() == 0 && !h.terminated && !h.has_capacity
    &&& h.accept_data ==> {
        let p = h.raw_params@;
        &&& p.len() == (if h.has_capacity { 2int } else { 1 })
        &&& h.kind_id == p[0] && h.kind == kind_of(p[0])
        &&& h.encoding == (if nul_form(p[0]) { EncodingFunction::NulTerminated } else if counted_form(p[0]) { EncodingFunction::ExplicitSize } else { EncodingFunction::Unknown })
        &&& h.terminated ==> nul_form(p[0])
        &&& h.has_capacity ==> counted_form(p[0]) && h.capacity == p[1] && d.len() <= h.capacity
        &&& counted_form(p[0]) && !h.has_capacity ==> d.len() == 0
        &&& nul_form(p[0]) ==> !d.contains(0u8)
        &&& !nul_form(p[0]) && !counted_form(p[0]) ==> d.len() == 0
    }
}
//@fn new
//@ret r
//@sub -> Command => -> BarcodeHandler
//@sub Command::new(... Box::new($1),) => $1
//@spec
    ensures keeps(r, Seq::<u8>::empty()), taken_by(r, Seq::<u8>::empty()) == Seq::<u8>::empty(),
//@end
impl BarcodeHandler {
//@fn CommandHandler for BarcodeHandler::push
//@ret r
//@spec
    requires keeps(*old(self), old(data)@)
    ensures
        keeps(*final(self), final(data)@),
        r == takes(taken_by(*old(self), old(data)@)),
        r ==> taken_by(*final(self), final(data)@) == taken_by(*old(self), old(data)@).push(byte),
        !r ==> *final(self) == *old(self) && *final(data) == *old(data),
//@end
//@fn CommandHandler for BarcodeHandler::get_command_bytes
//@ret r
//@sub params.extend(self.raw_params.clone()) => params.extend_from_slice(&self.raw_params)
//@spec
    ensures r.0@ + r.1@ == command.commands@ + taken_by(*self, command.data@),
//@end
}
}

// ---------------------------------------------------------------- little endian sizes
/// bytes that are not there count as 0
pub open spec fn at(s: Seq<u8>, i: int) -> u8 { if 0 <= i < s.len() { s[i] } else { 0 } }
//@use thermal_parser/src/util.rs
//@fn parse_u16
//@ret r
//@spec
    requires index < usize::MAX
    ensures r == le16(at(bytes@, index as int), at(bytes@, index + 1))
//@at begin
    proof {
        let (a, b) = (at(bytes@, index as int), at(bytes@, index + 1));
        assert((((b as u16) << 8) | (a as u16)) as int == a as int + 256 * (b as int)) by {
            assert((((b as u16) << 8u16) | (a as u16)) == add(a as u16, mul(256, b as u16))) by(bit_vector);
        }
    }
//@end
pub open spec fn le32(a: u8, b: u8, c: u8, d: u8) -> int { a as int + 256 * b as int + 65536 * c as int + 16777216 * d as int }
//@fn parse_u32
//@ret r
//@spec
    requires index < usize::MAX - 2
    ensures r == le32(at(bytes@, index as int), at(bytes@, index + 1), at(bytes@, index + 2), at(bytes@, index + 3))
//@at begin
    proof {
        let (a, b, c, d) = (at(bytes@, index as int), at(bytes@, index + 1), at(bytes@, index + 2), at(bytes@, index + 3));
        assert(((d as u32) << 24u32 | (c as u32) << 16u32 | (b as u32) << 8u32 | (a as u32))
            == add(add(a as u32, mul(256, b as u32)), add(mul(65536, c as u32), mul(16777216, d as u32)))) by(bit_vector);
    }
//@end

// ---------------------------------------------------------------- 2D code and graphics envelopes
mod envelopes {
use super::*;
//@use thermal_parser/src/subcommands/mod.rs
//@item struct SubCommandHandler public

pub open spec fn taken_by(h: SubCommandHandler, d: Seq<u8>) -> Seq<u8> {
    match h.subcommand { Some(s) => s.commands@ + s.data@, None => d }
}
/// size bytes and the two selectors
pub open spec fn head_len(large: bool) -> int { if large { 6 } else { 4 } }
/// the bytes announced after the size, less the selectors
pub open spec fn payload(t: Seq<u8>, large: bool) -> int {
    let n = if large { le32(t[0], t[1], t[2], t[3]) } else { le16(t[0], t[1]) };
    if n < 2 { 0 } else { n - 2 }
}
pub open spec fn takes(t: Seq<u8>, large: bool) -> bool {
    t.len() < head_len(large) || t.len() - head_len(large) < payload(t, large)
}
/// is c the function with these selectors
pub open spec fn selected(c: Command, m: u8, id: u8, use_m: bool) -> bool {
    if use_m { c.commands@.len() > 0 && c.commands@[0] == m && exists |i: int| 1 <= i < c.commands@.len() && #[trigger] c.commands@[i] == id }
    else { c.commands@.contains(id) }
}
pub open spec fn function_ok(c: Command) -> bool {
    simple(c.handler) && c.data@.len() == 0
}
pub open spec fn keeps(h: SubCommandHandler, d: Seq<u8>) -> bool {
    let n = head_len(h.is_large);
    let t = taken_by(h, d);
    &&& forall |i: int| 0 <= i < h.commands@.len() ==> function_ok(#[trigger] h.commands@[i])
    &&& !h.accept_data ==> h.subcommand is None && h.size == 0 && d.len() < n
    &&& h.accept_data ==> {
        &&& t.len() == n + h.size && h.size <= h.capacity && h.capacity == payload(t, h.is_large)
        &&& match h.subcommand {
            // the function with the selectors of the head, its data is the payload
            Some(s) => d.len() == 0 && s.commands@.len() == n && exists |i: int| 0 <= i < h.commands@.len() && selected(#[trigger] h.commands@[i], t[n - 2], t[n - 1], h.use_m)
                && s.handler == h.commands@[i].handler && s.name == h.commands@[i].name && s.kind == h.commands@[i].kind && s.data_kind == h.commands@[i].data_kind,
            None => forall |i: int| 0 <= i < h.commands@.len() ==> !selected(#[trigger] h.commands@[i], t[n - 2], t[n - 1], h.use_m),
        }
    }
}
impl SubCommandHandler {
//@fn SubCommandHandler::detect_kind
//@spec
    requires old(self).subcommand is None
    ensures
        match final(self).subcommand {
            Some(s) => exists |i: int| 0 <= i < old(self).commands@.len() && s == #[trigger] old(self).commands@[i] && s.commands@.contains(old(self).subcommand_id),
            None => forall |i: int| 0 <= i < old(self).commands@.len() ==> !(#[trigger] old(self).commands@[i]).commands@.contains(old(self).subcommand_id),
        },
        *final(self) == (SubCommandHandler { subcommand: final(self).subcommand, ..*old(self) }),
//@loop 1 it=it for c in self.commands.iter()
    invariant_except_break
        self.subcommand is None,
        forall |i: int| 0 <= i < it.index() ==> !(#[trigger] old(self).commands@[i]).commands@.contains(old(self).subcommand_id),
    invariant
        it.seq().len() == old(self).commands@.len(), forall |i: int| 0 <= i < old(self).commands@.len() ==> *#[trigger] it.seq()[i] == old(self).commands@[i],
        *self == (SubCommandHandler { subcommand: self.subcommand, ..*old(self) }),
    ensures
        match self.subcommand {
            Some(s) => exists |i: int| 0 <= i < old(self).commands@.len() && s == #[trigger] old(self).commands@[i] && s.commands@.contains(old(self).subcommand_id),
            None => forall |i: int| 0 <= i < old(self).commands@.len() ==> !(#[trigger] old(self).commands@[i]).commands@.contains(old(self).subcommand_id),
        },
//@at begin 1
    proof { assert(*it.seq()[it.index()] == old(self).commands@[it.index()]); has_byte(c.commands@, self.subcommand_id); }
//@end
//@fn SubCommandHandler::detect_kind_use_m
//@sub for c in self.commands.iter() { => let mut verif_k: usize = 0; while verif_k < self.commands.len() { let c = &self.commands[verif_k]; verif_k += 1;
//@sub for (pos, byte) in c.commands.iter().enumerate() => for pos in 0..c.commands.len()
//@sub self.subcommand_id == *byte => self.subcommand_id == c.commands[pos]
//@spec
    requires old(self).subcommand is None
    ensures
        match final(self).subcommand {
            Some(s) => exists |i: int| 0 <= i < old(self).commands@.len() && s == #[trigger] old(self).commands@[i] && selected(s, old(self).m, old(self).subcommand_id, true),
            None => forall |i: int| 0 <= i < old(self).commands@.len() ==> !selected(#[trigger] old(self).commands@[i], old(self).m, old(self).subcommand_id, true),
        },
        *final(self) == (SubCommandHandler { subcommand: final(self).subcommand, ..*old(self) }),
//@loop 1 while verif_k < self.commands.len()
    invariant
        verif_k <= old(self).commands@.len(),
        *self == (SubCommandHandler { subcommand: self.subcommand, ..*old(self) }),
        match self.subcommand {
            Some(s) => exists |i: int| 0 <= i < verif_k && s == #[trigger] old(self).commands@[i] && selected(s, old(self).m, old(self).subcommand_id, true),
            None => forall |i: int| 0 <= i < verif_k ==> !selected(#[trigger] old(self).commands@[i], old(self).m, old(self).subcommand_id, true),
        },
    decreases old(self).commands@.len() - verif_k
//@at begin 1
    let ghost had = self.subcommand;
    let ghost k = verif_k;
//@loop 2 it=it for pos in 0..c.commands.len()
    invariant_except_break
        self.subcommand == had,
        forall |i: int| 1 <= i < it.index() ==> #[trigger] c.commands@[i] != old(self).subcommand_id,
    invariant
        *self == (SubCommandHandler { subcommand: self.subcommand, ..*old(self) }),
        *c == old(self).commands@[k as int],
        c.commands@.len() > 0 ==> c.commands@[0] == self.m,
    ensures
        selected(*c, old(self).m, old(self).subcommand_id, true) ==> self.subcommand == Some(*c),
        !selected(*c, old(self).m, old(self).subcommand_id, true) ==> self.subcommand == had,
//@end

//@fn SubCommandHandler::parse_meta
//@spec
    requires data@.len() == head_len(old(self).is_large), old(self).subcommand is None,
        forall |i: int| 0 <= i < old(self).commands@.len() ==> function_ok(#[trigger] old(self).commands@[i]),
    ensures
        final(self).accept_data,
        final(self).commands == old(self).commands && final(self).is_large == old(self).is_large && final(self).use_m == old(self).use_m && final(self).size == old(self).size,
        final(self).capacity == payload(data@, old(self).is_large),
        match final(self).subcommand {
            Some(s) => s.commands@ == data@ && s.data@.len() == 0 && exists |i: int| 0 <= i < old(self).commands@.len() && selected(#[trigger] old(self).commands@[i], data@[data@.len() - 2], data@[data@.len() - 1], old(self).use_m)
                && s.handler == old(self).commands@[i].handler && s.name == old(self).commands@[i].name && s.kind == old(self).commands@[i].kind && s.data_kind == old(self).commands@[i].data_kind,
            None => forall |i: int| 0 <= i < old(self).commands@.len() ==> !selected(#[trigger] old(self).commands@[i], data@[data@.len() - 2], data@[data@.len() - 1], old(self).use_m),
        },
//@end
//@fn CommandHandler for SubCommandHandler::push
//@ret r
//@spec
    requires keeps(*old(self), old(data)@)
    ensures
        keeps(*final(self), final(data)@),
        final(self).is_large == old(self).is_large, final(self).use_m == old(self).use_m, final(self).commands == old(self).commands,
        r == takes(taken_by(*old(self), old(data)@), old(self).is_large),
        r ==> taken_by(*final(self), final(data)@) == taken_by(*old(self), old(data)@).push(byte),
        !r ==> *final(self) == *old(self) && *final(data) == *old(data),
//@end
//@fn CommandHandler for SubCommandHandler::get_subcommand
//@ret r
//@spec
    requires exists |d: Seq<u8>| keeps(*old(self), d)
    ensures match r {
        Some(s) => simple(s.handler)
            && forall |d: Seq<u8>| #[trigger] keeps(*old(self), d) ==> taken_by(*old(self), d) == s.commands@ + s.data@,
        None => *final(self) == *old(self),
    }
//@end
}
//@fn new
//@ret r
//@sub -> Box<SubCommandHandler> => -> SubCommandHandler
//@sub Box::new($1) => $1
//@spec
    requires forall |i: int| 0 <= i < commands@.len() ==> function_ok(#[trigger] commands@[i])
    ensures keeps(r, Seq::<u8>::empty()), taken_by(r, Seq::<u8>::empty()) == Seq::<u8>::empty(), r.is_large == is_large, r.use_m == use_m, r.commands == commands
//@end
}
}
fn main() {}
