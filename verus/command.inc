//@meta assume Command::clone yields an equal command (derived Clone, handlers clone their fields)
//@meta assume a handler behind Box<dyn CommandHandler> is one of the types of this crate: its push, get_subcommand and get_command_bytes are the ones put under contract here (impl by impl) or the default methods of the trait
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::rc::Rc;
use std::mem;
//@include std.inc
verus! {
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures <T as PartialEqSpec>::obeys_eq_spec() ==> r == exists |i: int| 0 <= i < s.len() && #[trigger] s[i].eq_spec(x);

proof fn has_byte(s: Seq<u8>, x: u8)
    ensures s.contains(x) == exists |i: int| 0 <= i < s.len() && #[trigger] s[i].eq_spec(&x)
{
    if s.contains(x) {
        let i = choose |i: int| 0 <= i < s.len() && s[i] == x;
        assert(s[i].eq_spec(&x));
    }
    if exists |i: int| 0 <= i < s.len() && #[trigger] s[i].eq_spec(&x) {
        let i = choose |i: int| 0 <= i < s.len() && #[trigger] s[i].eq_spec(&x);
        assert(s[i] == x);
    }
}

// ---------------------------------------------------------------- handlers

/// A handler as the parser sees it: Box<dyn CommandHandler>
#[verifier::external_body]
pub struct AnyHandler { _x: u8 }

/// the bytes a command has taken after its command bytes, in order; d is the data of the command
pub uninterp spec fn taken(h: AnyHandler, d: Seq<u8>) -> Seq<u8>;
/// does it take another byte
pub uninterp spec fn wants(h: AnyHandler, d: Seq<u8>) -> bool;
/// the handler and the data belong together
pub uninterp spec fn fits(h: AnyHandler, d: Seq<u8>) -> bool;
/// its command bytes are not among the bytes it shows
pub uninterp spec fn silent(h: AnyHandler) -> bool;
/// it keeps all its bytes in the data of the command
pub open spec fn simple(h: AnyHandler) -> bool {
    &&& !silent(h)
    &&& plain(h)
}
pub open spec fn plain(h: AnyHandler) -> bool {
    forall |d: Seq<u8>| #[trigger] taken(h, d) == d && fits(h, d)
}

impl AnyHandler {
    #[verifier::external_body]
    pub fn push(&mut self, data: &mut Vec<u8>, byte: u8) -> (r: bool)
        requires fits(*old(self), old(data)@)
        ensures
            fits(*final(self), final(data)@),
            silent(*final(self)) == silent(*old(self)),
            r == wants(*old(self), old(data)@),
            r ==> taken(*final(self), final(data)@) == taken(*old(self), old(data)@).push(byte),
            !r ==> *final(self) == *old(self) && *final(data) == *old(data),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get_subcommand(&mut self) -> (r: Option<Command>)
        requires exists |d: Seq<u8>| fits(*old(self), d)
        ensures match r {
            Some(s) => simple(s.handler)
                && (forall |d: Seq<u8>| #[trigger] fits(*old(self), d) ==> !silent(*old(self)) && taken(*old(self), d) == s.commands@ + s.data@),
            None => *final(self) == *old(self),
        }
    { unimplemented!() }
}

// ---------------------------------------------------------------- commands
}
verus! {
//@use thermal_parser/src/command.rs
//@item enum CommandType structural
//@item enum DataType structural
//@item struct Command with Box<dyn CommandHandler> => AnyHandler

impl Clone for Command {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self
    { unimplemented!() }
}

pub open spec fn by_handler(k: DataType) -> bool { k == DataType::Custom || k == DataType::Subcommand }
pub open spec fn open_ended(k: DataType) -> bool { k == DataType::Text || k == DataType::Unknown }
/// number of parameter bytes of the fixed kinds
pub open spec fn size_of_kind(k: DataType) -> int {
    match k {
        DataType::Single => 1,
        DataType::Double => 2,
        DataType::Triple => 3,
        DataType::Quad => 4,
        DataType::Octet => 8,
        _ => 0,
    }
}
pub open spec fn fixed(k: DataType) -> bool { !by_handler(k) && !open_ended(k) }

pub open spec fn well(c: Command) -> bool {
    &&& fits(c.handler, c.data@)
    &&& !by_handler(c.data_kind) ==> plain(c.handler)
}
/// does the command take another byte
pub open spec fn hungry(c: Command) -> bool {
    if by_handler(c.data_kind) { wants(c.handler, c.data@) }
    else if open_ended(c.data_kind) { true }
    else { c.data@.len() < size_of_kind(c.data_kind) }
}
/// the bytes of a command: what get_command_bytes shows
pub open spec fn own(c: Command) -> Seq<u8> {
    (if silent(c.handler) { Seq::<u8>::empty() } else { c.commands@ }) + taken(c.handler, c.data@)
}
/// the same command with other bytes
pub open spec fn same_command(a: Command, b: Command) -> bool {
    &&& a.commands == b.commands && a.name == b.name && a.kind == b.kind && a.data_kind == b.data_kind
    &&& silent(a.handler) == silent(b.handler)
}

/// b is a after one more byte
pub open spec fn pushed(a: Command, b: Command, byte: u8) -> bool {
    &&& same_command(a, b)
    &&& own(b) == own(a).push(byte)
    &&& !by_handler(a.data_kind) ==> b.handler == a.handler && b.data@ == a.data@.push(byte)
}
impl Command {
//@fn Command::push
//@ret r
//@spec
    requires well(*old(self))
    ensures
        well(*final(self)),
        r == hungry(*old(self)),
        r ==> pushed(*old(self), *final(self), byte),
        !r ==> *final(self) == *old(self),
//@at after self.data.push(byte);
    proof {
        assert(own(*self) =~= own(*old(self)).push(byte));
    }
//@at after let data_len = self.data.len();
    proof {
        assert(forall |a: Seq<u8>, b: Seq<u8>, x: u8| #![trigger a + b.push(x)] a + b.push(x) =~= (a + b).push(x));
    }
//@end
}
}
