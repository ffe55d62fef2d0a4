//@meta rlimit 6
//@include command.inc
verus! {
// ---------------------------------------------------------------- the command set and the parser

//@use thermal_parser/src/command_sets/mod.rs
//@item struct CommandSet

/// what is known of a command in the table
pub open spec fn entry_ok(c: Command) -> bool {
    &&& well(c)
    &&& !silent(c.handler)
    &&& taken(c.handler, c.data@) == Seq::<u8>::empty()
    &&& 1 <= c.commands@.len() <= 255
}
pub open spec fn table_ok(s: CommandSet) -> bool {
    &&& forall |i: int| 0 <= i < s.commands@.len() ==> entry_ok(#[trigger] s.commands@[i])
    &&& well(s.default) && s.default.data_kind == DataType::Text && s.default.kind != CommandType::Subcommand && own(s.default) == Seq::<u8>::empty()
    &&& well(s.unknown) && s.unknown.data_kind == DataType::Unknown && s.unknown.kind != CommandType::Subcommand && silent(s.unknown.handler)
    &&& s.begin_parsing.kind != CommandType::Subcommand && own(s.begin_parsing) == Seq::<u8>::empty()
    &&& s.end_parsing.kind != CommandType::Subcommand && own(s.end_parsing) == Seq::<u8>::empty()
}

/// the bytes of a sequence of commands
pub open spec fn flat(s: Seq<Command>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + own(s.last()) }
}
proof fn flat_push(s: Seq<Command>, c: Command)
    ensures flat(s.push(c)) == flat(s) + own(c)
{
    assert(s.push(c).drop_last() =~= s);
}

//@use thermal_parser/src/parser.rs
//@item struct Parser public

/// the first n bytes agree
pub open spec fn starts(c: Command, b: Seq<u8>) -> bool {
    c.commands@.len() >= b.len() && c.commands@.subrange(0, b.len() as int) == b
}

pub open spec fn held(c: Option<Command>) -> Seq<u8> {
    match c { Some(x) => own(x), None => Seq::empty() }
}
/// every byte the parser holds, in order
pub open spec fn bytes_of(p: Parser) -> Seq<u8> {
    flat(p.captured_commands@) + held(p.current_command) + p.command_buffer@
}

pub open spec fn good(p: Parser) -> bool {
    &&& table_ok(p.cmd_set)
    &&& p.match_depth == p.command_buffer@.len()
    &&& match p.current_command { Some(c) => well(c), None => true }
    &&& p.current_command_is_default ==> (match p.current_command { Some(c) => open_ended(c.data_kind), None => false })
    &&& p.match_depth > 0 ==> {
        &&& p.command_matches@.len() > 0
        &&& forall |i: int| 0 <= i < p.command_matches@.len() ==> entry_ok(#[trigger] p.command_matches@[i]) && starts(p.command_matches@[i], p.command_buffer@)
    }
}
/// a parser that has seen nothing, or has finished a stream
pub open spec fn fresh(p: Parser) -> bool {
    &&& p.match_depth == 0
    &&& p.command_buffer@ == Seq::<u8>::empty()
    &&& p.captured_commands@ == Seq::<Command>::empty()
    &&& p.command_matches@ == Seq::<Command>::empty()
    &&& p.current_command is None
    &&& !p.current_command_is_default
}

pub open spec fn subset_of(p: Parser) -> Seq<Command> {
    if p.match_depth == 0 { p.cmd_set.commands@ } else { p.command_matches@ }
}
pub open spec fn agrees(c: Command, d: int, b: u8) -> bool {
    c.commands@.len() > d && c.commands@[d] == b
}
/// the commands whose byte at d is b
pub open spec fn pick(s: Seq<Command>, d: int, b: u8) -> Seq<Command>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        let r = pick(s.drop_last(), d, b);
        if agrees(s.last(), d, b) { r.push(s.last()) } else { r }
    }
}
proof fn picked(s: Seq<Command>, b: Seq<u8>, x: u8)
    requires forall |i: int| 0 <= i < s.len() ==> entry_ok(#[trigger] s[i]) && starts(s[i], b)
    ensures
        forall |i: int| 0 <= i < pick(s, b.len() as int, x).len() ==>
            entry_ok(#[trigger] pick(s, b.len() as int, x)[i]) && starts(pick(s, b.len() as int, x)[i], b.push(x)) && s.contains(pick(s, b.len() as int, x)[i])
    decreases s.len()
{
    if s.len() > 0 {
        let d = b.len() as int;
        let t = s.drop_last();
        picked(t, b, x);
        if agrees(s.last(), d, x) {
            assert(s.last().commands@.subrange(0, d + 1) =~= b.push(x));
        }
        let r = pick(s, d, x);
        assert forall |i: int| 0 <= i < r.len() implies entry_ok(#[trigger] r[i]) && starts(r[i], b.push(x)) && s.contains(r[i]) by {
            if i < pick(t, d, x).len() {
                assert(r[i] == pick(t, d, x)[i]);
                assert(t.contains(r[i]));
                let k = choose |k: int| 0 <= k < t.len() && t[k] == r[i];
                assert(s[k] == r[i]);
            } else {
                assert(r[i] == s.last());
                assert(s[s.len() - 1] == r[i]);
            }
        }
    }
}
/// the command at work ends here and c begins
pub open spec fn cut_in(p: Parser, q: Parser, c: Command) -> bool {
    &&& q.current_command == Some(c)
    &&& q.match_depth == 0
    &&& q.command_buffer@ == Seq::<u8>::empty()
    &&& match p.current_command {
        Some(o) => q.captured_commands@.len() == p.captured_commands@.len() + 1
            && q.captured_commands@.drop_last() == p.captured_commands@
            && own(q.captured_commands@.last()) == own(o)
            && (o.kind != CommandType::Subcommand ==> q.captured_commands@.last() == o),
        None => q.captured_commands@ == p.captured_commands@,
    }
}
/// a command of the parser's own making: unknown bytes or text
pub open spec fn made_of(c: Command, model: Command, bytes: Seq<u8>) -> bool {
    &&& same_command(c, model)
    &&& c.handler == model.handler
    &&& c.data@ == bytes
}
/// what one byte does
pub open spec fn step(p: Parser, b: u8, q: Parser) -> bool {
    &&& q.cmd_set == p.cmd_set
    &&& if p.match_depth == 0 && !p.current_command_is_default && p.current_command is Some && hungry(p.current_command->0) {
        // a command takes what it wants
        &&& q.current_command is Some && pushed(p.current_command->0, q.current_command->0, b)
        &&& q.match_depth == 0 && !q.current_command_is_default
        &&& q.command_buffer@ == p.command_buffer@ && q.captured_commands@ == p.captured_commands@
    } else {
        let m = pick(subset_of(p), p.match_depth as int, b);
        let buf = p.command_buffer@.push(b);
        if m.len() == 1 && m[0].commands@.len() == p.match_depth + 1 {
            // a command is complete
            cut_in(p, q, m[0]) && !q.current_command_is_default
        } else if m.len() > 0 {
            // it may become a command
            &&& q.match_depth == p.match_depth + 1 && q.command_buffer@ == buf && q.command_matches@ == m
            &&& q.current_command == p.current_command && q.current_command_is_default == p.current_command_is_default
            &&& q.captured_commands@ == p.captured_commands@
        } else {
            &&& q.current_command_is_default && q.match_depth == 0 && q.command_buffer@ == Seq::<u8>::empty()
            &&& if p.cmd_set.unknown.commands@.contains(buf[0]) {
                q.current_command is Some && cut_in(p, q, q.current_command->0) && made_of(q.current_command->0, p.cmd_set.unknown, buf)
            } else if p.current_command_is_default {
                &&& p.current_command is Some && q.current_command is Some
                &&& made_of(q.current_command->0, p.current_command->0, (p.current_command->0).data@ + buf)
                &&& q.captured_commands@ == p.captured_commands@
            } else {
                q.current_command is Some && cut_in(p, q, q.current_command->0) && made_of(q.current_command->0, p.cmd_set.default, buf)
            }
        }
    }
}
/// one state before and one after each byte
pub open spec fn run(st: Seq<Parser>, b: Seq<u8>) -> bool {
    &&& st.len() == b.len() + 1
    &&& forall |i: int| 0 <= i < b.len() ==> step(#[trigger] st[i], b[i], st[i + 1])
}
/// a stream begins
pub open spec fn begun(p: Parser, new: Parser) -> bool {
    &&& good(p)
    &&& p.cmd_set == new.cmd_set
    &&& p.match_depth == 0 && p.current_command is None && !p.current_command_is_default
    &&& p.captured_commands@ == seq![new.cmd_set.begin_parsing]
}
/// a stream ends: the command at work and a prefix that did not become a command are kept
pub open spec fn ended(p: Parser, r: Seq<Command>) -> bool {
    let n = p.captured_commands@.len();
    let c: int = if p.current_command is Some { 1 } else { 0 };
    let u: int = if p.command_buffer@.len() > 0 { 1 } else { 0 };
    &&& r.len() == n + c + u + 1
    &&& r.subrange(0, n as int) == p.captured_commands@
    &&& match p.current_command {
        Some(o) => own(r[n as int]) == own(o) && (o.kind != CommandType::Subcommand ==> r[n as int] == o),
        None => true,
    }
    &&& u == 1 ==> made_of(r[n + c], p.cmd_set.unknown, p.command_buffer@)
    &&& r.last() == p.cmd_set.end_parsing
}
impl Parser {
//@fn Parser::new
//@ret r
//@spec
    ensures fresh(r), r.cmd_set == cmd_set
//@end

//@fn Parser::emit_command
//@spec
    requires cmd.kind == CommandType::Subcommand ==> well(cmd)
    ensures
        final(self).captured_commands@.len() == old(self).captured_commands@.len() + 1,
        final(self).captured_commands@.drop_last() == old(self).captured_commands@,
        own(final(self).captured_commands@.last()) == own(cmd),
        flat(final(self).captured_commands@) == flat(old(self).captured_commands@) + own(cmd),
        cmd.kind != CommandType::Subcommand ==> final(self).captured_commands@.last() == cmd,
        final(self).cmd_set == old(self).cmd_set,
        final(self).match_depth == old(self).match_depth,
        final(self).command_matches == old(self).command_matches,
        final(self).current_command == old(self).current_command,
        final(self).current_command_is_default == old(self).current_command_is_default,
        final(self).command_buffer == old(self).command_buffer,
//@at begin
    let ghost whole = cmd;
    proof { if cmd.kind == CommandType::Subcommand { assert(fits(cmd.handler, cmd.data@)); } }
//@loop 1 it=it for command in command.commands.iter()
    invariant
        it.seq().len() == whole.commands@.len(), forall |i: int| 0 <= i < whole.commands@.len() ==> *#[trigger] it.seq()[i] == whole.commands@[i],
        expanded_cmds@ =~= whole.commands@.subrange(0, it.index() as int),
//@at begin 1
    proof { assert(*it.seq()[it.index()] == whole.commands@[it.index()]); }
//@loop 2 it=it for command in subcommand.commands.iter()
    invariant
        it.seq().len() == subcommand.commands@.len(), forall |i: int| 0 <= i < subcommand.commands@.len() ==> *#[trigger] it.seq()[i] == subcommand.commands@[i],
        expanded_cmds@ =~= whole.commands@ + subcommand.commands@.subrange(0, it.index() as int),
//@at begin 2
    proof { assert(*it.seq()[it.index()] == subcommand.commands@[it.index()]); }
//@at before subcommand.commands = Rc
    let ghost inner = subcommand;
//@at after subcommand.commands = Rc::new(expanded_cmds);
    proof {
        assert(expanded_cmds@ =~= whole.commands@ + inner.commands@);
        assert(own(subcommand) =~= own(whole));
    }
//@at after #1 self.captured_commands.push(subcommand);
    proof { flat_push(old(self).captured_commands@, subcommand); assert(self.captured_commands@.drop_last() =~= old(self).captured_commands@); }
//@at after #1 self.captured_commands.push(cmd);
    proof { flat_push(old(self).captured_commands@, whole); assert(self.captured_commands@.drop_last() =~= old(self).captured_commands@); }
//@at after #2 self.captured_commands.push(cmd);
    proof { flat_push(old(self).captured_commands@, whole); assert(self.captured_commands@.drop_last() =~= old(self).captured_commands@); }
//@end

//@fn Parser::parse
//@spec
    requires good(*old(self))
    ensures
        good(*final(self)),
        step(*old(self), *byte, *final(self)),
        bytes_of(*final(self)) == bytes_of(*old(self)).push(*byte),
//@loop 1 it=it for cmd in subset.iter()
    invariant
        it.seq().len() == sub0.len(), forall |i: int| 0 <= i < sub0.len() ==> *#[trigger] it.seq()[i] == sub0[i],
        self.match_depth == old(self).match_depth,
        new_command_matches@ == pick(sub0.subrange(0, it.index() as int), self.match_depth as int, *byte),
//@at begin 1
    proof {
        assert(*it.seq()[it.index()] == sub0[it.index()]);
        assert(sub0.subrange(0, it.index() + 1).drop_last() =~= sub0.subrange(0, it.index() as int));
    }
//@at before 1
    let ghost sub0 = subset_of(*old(self));
    proof { assert(sub0.subrange(0, 0) =~= Seq::<Command>::empty()); }
//@at before let mut new_command_matches
    let ghost buf = old(self).command_buffer@.push(*byte);
    proof {
        assert(self.command_buffer@ == buf);
        assert(self.current_command == old(self).current_command);
        assert(flat(self.captured_commands@) + held(self.current_command) + buf =~= bytes_of(*old(self)).push(*byte));
    }
//@at after self.command_matches = new_command_matches;
    let ghost m = self.command_matches@;
    proof {
        assert(sub0.subrange(0, sub0.len() as int) =~= sub0);
        assert(m == pick(sub0, old(self).match_depth as int, *byte));
        if old(self).match_depth == 0 {
            assert(old(self).command_buffer@ =~= Seq::<u8>::empty());
            assert forall |i: int| 0 <= i < sub0.len() implies starts(#[trigger] sub0[i], old(self).command_buffer@) by {
                assert(sub0[i].commands@.subrange(0, 0) =~= Seq::<u8>::empty());
            }
        }
        picked(sub0, old(self).command_buffer@, *byte);
        if m.len() > 0 { assert(entry_ok(m[0]) && starts(m[0], buf)); }
    }
//@at after unknown_command.data = self.command_buffer.clone();
    proof {
        assert(own(unknown_command) =~= buf);
    }
//@at before if self.command_buffer.len() > 0
    proof { has_byte(self.cmd_set.unknown.commands@, buf[0]); }
//@at before 2
    let ghost cmd0 = *cmd;
    proof { assert(buf.subrange(0, buf.len() as int) =~= buf); }
//@loop 2 it=it for buffered in &self.command_buffer
    invariant
        it.seq().len() == buf.len(), forall |i: int| 0 <= i < buf.len() ==> *#[trigger] it.seq()[i] == buf[i],
        well(*cmd), same_command(cmd0, *cmd), cmd.handler == cmd0.handler, open_ended(cmd0.data_kind),
        cmd.data@ == cmd0.data@ + buf.subrange(0, it.index() as int),
        own(*cmd) == own(cmd0) + buf.subrange(0, it.index() as int),
//@at before 3
    let ghost cmd1 = default_command;
    proof {
        assert(buf.subrange(0, buf.len() as int) =~= buf);
        assert(taken(cmd1.handler, cmd1.data@) == cmd1.data@);
        assert(own(cmd1).len() == 0);
        assert(cmd1.data@.len() == 0);
    }
//@at after 3
    proof {
        assert(default_command.data@ =~= buf);
        assert(made_of(default_command, old(self).cmd_set.default, buf));
    }
//@loop 3 it=it for buffered in &self.command_buffer
    invariant
        it.seq().len() == buf.len(), forall |i: int| 0 <= i < buf.len() ==> *#[trigger] it.seq()[i] == buf[i],
        well(default_command), same_command(cmd1, default_command), default_command.handler == cmd1.handler, open_ended(cmd1.data_kind),
        default_command.data@ == cmd1.data@ + buf.subrange(0, it.index() as int),
        own(default_command) == own(cmd1) + buf.subrange(0, it.index() as int),
//@end

//@fn Parser::parse_bytes
//@ret r
//@spec
    requires fresh(*old(self)), table_ok(old(self).cmd_set)
    ensures
        fresh(*final(self)), final(self).cmd_set == old(self).cmd_set,
        r@.len() >= 2, r@.first() == old(self).cmd_set.begin_parsing, r@.last() == old(self).cmd_set.end_parsing,
        flat(r@) == bytes@,
        exists |st: Seq<Parser>| #[trigger] run(st, bytes@) && begun(st[0], *old(self)) && ended(st.last(), r@),
//@at begin
    let ghost set = self.cmd_set;
//@at after self.emit_command(self.cmd_set.begin_parsing.clone());
    let ghost mut st = seq![*self];
    proof {
        assert(flat(old(self).captured_commands@) =~= Seq::<u8>::empty());
        assert(bytes_of(*self) =~= Seq::<u8>::empty());
        assert(self.captured_commands@ =~= seq![set.begin_parsing]);
    }
//@loop 1 it=it for byte in bytes
    invariant
        it.seq().len() == bytes@.len(), forall |i: int| 0 <= i < bytes@.len() ==> *#[trigger] it.seq()[i] == bytes@[i],
        good(*self), self.cmd_set == set,
        bytes_of(*self) == bytes@.subrange(0, it.index() as int),
        run(st, bytes@.subrange(0, it.index() as int)), st.last() == *self, begun(st[0], *old(self)),
        self.captured_commands@.len() > 0, self.captured_commands@[0] == set.begin_parsing,
//@at begin 1
    let ghost k = it.index();
    let ghost before = self.captured_commands@;
    proof { assert(*it.seq()[k] == bytes@[k]); }
//@at end 1
    proof {
        if self.captured_commands@ != before { assert(self.captured_commands@.drop_last()[0] == before[0]); }
        let b1 = bytes@.subrange(0, k + 1);
        assert(b1 =~= bytes@.subrange(0, k as int).push(bytes@[k as int]));
        assert(b1.drop_last() =~= bytes@.subrange(0, k as int));
        let st0 = st;
        st = st.push(*self);
        assert forall |i: int| 0 <= i < b1.len() implies step(#[trigger] st[i], b1[i], st[i + 1]) by {
            if i < k { assert(step(st0[i], bytes@.subrange(0, k as int)[i], st0[i + 1])); }
        }
    }
//@at after 1
    let ghost p = *self;
    let ghost n = p.captured_commands@.len() as int;
    proof { assert(bytes@.subrange(0, bytes@.len() as int) =~= bytes@); }
//@at before if !self.command_buffer.is_empty()
    let ghost c1 = self.captured_commands@;
    proof {
        assert(c1.subrange(0, n) =~= p.captured_commands@);
        assert(c1[0] == p.captured_commands@[0]);
    }
//@at before self.emit_command(self.cmd_set.end_parsing.clone());
    let ghost c2 = self.captured_commands@;
    proof {
        assert(c2.subrange(0, c1.len() as int) =~= c1);
        assert(forall |i: int| 0 <= i < c1.len() ==> #[trigger] c2[i] == c1[i]);
    }
//@at before let mut commands: Vec<Command> = Vec::new();
    let ghost c3 = self.captured_commands@;
    proof {
        assert(c3.drop_last() == c2);
        assert(forall |i: int| 0 <= i < c2.len() ==> #[trigger] c3[i] == c3.drop_last()[i]);
        assert(c3.subrange(0, n) =~= p.captured_commands@);
        assert(c3[0] == p.captured_commands@[0]);
        assert(c3.last() == set.end_parsing);
        assert(ended(p, c3));
        assert(run(st, bytes@) && begun(st[0], *old(self)) && ended(st.last(), c3));
    }
//@end

}

// ---------------------------------------------------------------- what follows from the steps

/// the commands that start with b
pub open spec fn with_prefix(s: Seq<Command>, b: Seq<u8>) -> Seq<Command>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        let r = with_prefix(s.drop_last(), b);
        if starts(s.last(), b) { r.push(s.last()) } else { r }
    }
}
proof fn prefix_nil(s: Seq<Command>)
    ensures with_prefix(s, Seq::<u8>::empty()) == s
    decreases s.len()
{
    if s.len() > 0 {
        prefix_nil(s.drop_last());
        assert(s.last().commands@.subrange(0, 0) =~= Seq::<u8>::empty());
        assert(s.drop_last().push(s.last()) =~= s);
    } else {
        assert(s =~= Seq::<Command>::empty());
    }
}
proof fn starts_more(c: Command, b: Seq<u8>, x: u8)
    ensures starts(c, b.push(x)) == (starts(c, b) && agrees(c, b.len() as int, x))
{
    let n = b.len() as int;
    if starts(c, b.push(x)) {
        assert(c.commands@.subrange(0, n) =~= c.commands@.subrange(0, n + 1).subrange(0, n));
        assert(b.push(x).subrange(0, n) =~= b);
        assert(c.commands@[n] == c.commands@.subrange(0, n + 1)[n]);
    }
    if starts(c, b) && agrees(c, n, x) {
        assert(c.commands@.subrange(0, n + 1) =~= b.push(x));
    }
}
proof fn pick_prefix(s: Seq<Command>, b: Seq<u8>, x: u8)
    ensures pick(with_prefix(s, b), b.len() as int, x) == with_prefix(s, b.push(x))
    decreases s.len()
{
    if s.len() > 0 {
        pick_prefix(s.drop_last(), b, x);
        starts_more(s.last(), b, x);
        let r = with_prefix(s.drop_last(), b);
        if starts(s.last(), b) {
            assert(r.push(s.last()).drop_last() =~= r);
        }
    }
}
proof fn prefix_none(s: Seq<Command>, b: Seq<u8>)
    requires forall |i: int| 0 <= i < s.len() ==> !starts(#[trigger] s[i], b)
    ensures with_prefix(s, b) == Seq::<Command>::empty()
    decreases s.len()
{
    if s.len() > 0 {
        assert forall |i: int| 0 <= i < s.drop_last().len() implies !starts(#[trigger] s.drop_last()[i], b) by { assert(!starts(s[i], b)); }
        prefix_none(s.drop_last(), b);
        assert(!starts(s[s.len() - 1], b));
    }
}
proof fn prefix_one(s: Seq<Command>, k: int, b: Seq<u8>)
    requires 0 <= k < s.len(), starts(s[k], b), forall |i: int| 0 <= i < s.len() && i != k ==> !starts(#[trigger] s[i], b)
    ensures with_prefix(s, b) == seq![s[k]]
    decreases s.len()
{
    let t = s.drop_last();
    assert forall |i: int| 0 <= i < t.len() && i != k implies !starts(#[trigger] t[i], b) by { assert(!starts(s[i], b)); }
    if k == s.len() - 1 {
        prefix_none(t, b);
        assert(with_prefix(s, b) =~= seq![s[k]]);
    } else {
        prefix_one(t, k, b);
        assert(!starts(s[s.len() - 1], b));
    }
}
proof fn prefix_some(s: Seq<Command>, k: int, b: Seq<u8>)
    requires 0 <= k < s.len(), starts(s[k], b)
    ensures with_prefix(s, b).contains(s[k])
    decreases s.len()
{
    let t = s.drop_last();
    if k < t.len() {
        prefix_some(t, k, b);
        let i = choose |i: int| 0 <= i < with_prefix(t, b).len() && with_prefix(t, b)[i] == s[k];
        assert(with_prefix(s, b)[i] == s[k]);
    } else {
        assert(with_prefix(s, b).last() == s[k]);
    }
}

/// nothing is going on: the next byte begins something new, or is more text
pub open spec fn boundary(p: Parser) -> bool {
    &&& p.match_depth == 0
    &&& p.command_buffer@ == Seq::<u8>::empty()
    &&& p.current_command_is_default || match p.current_command { Some(c) => !hungry(c), None => true }
}
/// no other command starts with the bytes of command k
pub open spec fn distinct(s: CommandSet, k: int) -> bool {
    &&& 0 <= k < s.commands@.len()
    &&& forall |i: int| 0 <= i < s.commands@.len() && i != k ==> !starts(#[trigger] s.commands@[i], s.commands@[k].commands@)
}

/// C01: a command is recognised by its command bytes alone, whatever came before
proof fn recognised(st: Seq<Parser>, k: int, n: int)
    requires
        good(st[0]), boundary(st[0]), distinct(st[0].cmd_set, k),
        1 <= n <= st[0].cmd_set.commands@[k].commands@.len(),
        run(st, st[0].cmd_set.commands@[k].commands@.subrange(0, n)),
    ensures ({
        let p = st[0]; let q = st.last(); let c = p.cmd_set.commands@[k];
        &&& q.cmd_set == p.cmd_set
        &&& n < c.commands@.len() ==> {
            &&& q.match_depth == n && q.command_buffer@ == c.commands@.subrange(0, n)
            &&& q.command_matches@ == with_prefix(p.cmd_set.commands@, c.commands@.subrange(0, n))
            &&& q.current_command == p.current_command && q.current_command_is_default == p.current_command_is_default
            &&& q.captured_commands@ == p.captured_commands@
        }
        &&& n == c.commands@.len() ==> cut_in(p, q, c) && !q.current_command_is_default
    })
    decreases n
{
    let p = st[0];
    let c = p.cmd_set.commands@[k];
    let b = c.commands@.subrange(0, n);
    let b0 = c.commands@.subrange(0, n - 1);
    let x = c.commands@[n - 1];
    let table = p.cmd_set.commands@;
    assert(entry_ok(c));
    let r = st[n - 1];
    assert(step(r, b[n - 1], st[n]));
    assert(b0.push(x) =~= b);
    if n == 1 {
        assert(b0 =~= Seq::<u8>::empty());
        prefix_nil(table);
        assert(r == p);
    } else {
        let t = st.drop_last();
        assert(t.len() == b0.len() + 1);
        assert forall |i: int| 0 <= i < b0.len() implies step(#[trigger] t[i], b0[i], t[i + 1]) by {
            assert(step(st[i], b[i], st[i + 1]));
        }
        recognised(t, k, n - 1);
        assert(t.last() == r);
    }
    assert(subset_of(r) == with_prefix(table, b0));
    pick_prefix(table, b0, x);
    let m = pick(subset_of(r), n - 1, x);
    assert(m == with_prefix(table, b));
    assert(starts(c, b));
    prefix_some(table, k, b);
    assert(m.len() > 0);
    if n == c.commands@.len() {
        assert(b =~= c.commands@);
        prefix_one(table, k, b);
        assert(m[0] == c);
    } else {
        if m.len() == 1 { assert(m[0] == c); }
    }
}

/// C01 and C02: the bytes that follow are taken as long as the command wants them, and the first one
/// that it does not want is not part of it
proof fn takes_payload(st: Seq<Parser>, b: Seq<u8>)
    requires
        good(st[0]), st[0].match_depth == 0, st[0].command_buffer@ == Seq::<u8>::empty(), !st[0].current_command_is_default, st[0].current_command is Some,
        run(st, b),
        forall |i: int| 0 <= i < b.len() ==> st[i].current_command is Some ==> hungry((#[trigger] st[i]).current_command->0),
    ensures ({
        let p = st[0]; let q = st.last();
        &&& q.cmd_set == p.cmd_set && q.match_depth == 0 && q.command_buffer@ == Seq::<u8>::empty() && !q.current_command_is_default
        &&& q.captured_commands@ == p.captured_commands@
        &&& q.current_command is Some
        &&& same_command(p.current_command->0, q.current_command->0)
        &&& own(q.current_command->0) == own(p.current_command->0) + b
        &&& !by_handler((p.current_command->0).data_kind) ==> (q.current_command->0).handler == (p.current_command->0).handler
            && (q.current_command->0).data@ == (p.current_command->0).data@ + b
    })
    decreases b.len()
{
    let n = b.len() as int;
    if n == 0 {
        assert(b =~= Seq::<u8>::empty());
        assert(own(st[0].current_command->0) + b =~= own(st[0].current_command->0));
        assert((st[0].current_command->0).data@ + b =~= (st[0].current_command->0).data@);
    } else {
        let t = st.drop_last();
        let b0 = b.drop_last();
        assert forall |i: int| 0 <= i < b0.len() implies step(#[trigger] t[i], b0[i], t[i + 1]) by { assert(step(st[i], b[i], st[i + 1])); }
        assert forall |i: int| 0 <= i < b0.len() && t[i].current_command is Some implies hungry((#[trigger] t[i]).current_command->0) by { assert(t[i] == st[i]); }
        takes_payload(t, b0);
        assert(t.last() == st[n - 1]);
        assert(step(st[n - 1], b[n - 1], st[n]));
        assert(hungry(st[n - 1].current_command->0));
        assert(b0.push(b[n - 1]) =~= b);
        assert(own(st[0].current_command->0) + b =~= (own(st[0].current_command->0) + b0).push(b[n - 1]));
        assert((st[0].current_command->0).data@ + b =~= ((st[0].current_command->0).data@ + b0).push(b[n - 1]));
    }
}
/// C01: a command with a fixed number of parameters takes exactly these bytes, whatever they are
proof fn fixed_command(st: Seq<Parser>, k: int, params: Seq<u8>)
    requires
        good(st[0]), boundary(st[0]), distinct(st[0].cmd_set, k),
        ({
            let c = st[0].cmd_set.commands@[k];
            &&& fixed(c.data_kind) && c.data@ == Seq::<u8>::empty() && params.len() == size_of_kind(c.data_kind)
            &&& run(st, c.commands@ + params)
        }),
    ensures ({
        let p = st[0]; let q = st.last(); let c = p.cmd_set.commands@[k];
        &&& boundary(q) && q.cmd_set == p.cmd_set && !q.current_command_is_default
        &&& q.current_command is Some && made_of(q.current_command->0, c, params)
        &&& match p.current_command {
            Some(o) => q.captured_commands@.len() == p.captured_commands@.len() + 1 && q.captured_commands@.drop_last() == p.captured_commands@ && own(q.captured_commands@.last()) == own(o),
            None => q.captured_commands@ == p.captured_commands@,
        }
    })
{
    let p = st[0];
    let c = p.cmd_set.commands@[k];
    let n = c.commands@.len() as int;
    let b = c.commands@ + params;
    assert(entry_ok(c));
    let s1 = st.subrange(0, n + 1);
    assert(c.commands@.subrange(0, n) =~= c.commands@);
    assert forall |i: int| 0 <= i < n implies step(#[trigger] s1[i], c.commands@[i], s1[i + 1]) by { assert(step(st[i], b[i], st[i + 1])); }
    recognised(s1, k, n);
    let s2 = st.subrange(n, st.len() as int);
    assert forall |i: int| 0 <= i < params.len() implies step(#[trigger] s2[i], params[i], s2[i + 1]) by { assert(step(st[n + i], b[n + i], st[n + i + 1])); }
    assert(s2[0] == s1.last());
    fixed_hungry(s2, c, params);
    takes_payload(s2, params);
    assert(s2.last() == st.last());
    assert(c.data@ + params =~= params);
}
proof fn fixed_hungry(st: Seq<Parser>, c: Command, b: Seq<u8>)
    requires
        st[0].match_depth == 0, !st[0].current_command_is_default, st[0].current_command == Some(c), fixed(c.data_kind), c.data@ == Seq::<u8>::empty(),
        b.len() <= size_of_kind(c.data_kind), run(st, b),
    ensures
        forall |i: int| 0 <= i < b.len() ==> (#[trigger] st[i]).current_command is Some && hungry(st[i].current_command->0),
        ({ let q = st.last(); q.match_depth == 0 && !q.current_command_is_default && q.current_command is Some && (q.current_command->0).data_kind == c.data_kind && (q.current_command->0).data@.len() == b.len() }),
    decreases b.len()
{
    let n = b.len() as int;
    if n > 0 {
        let t = st.drop_last();
        let b0 = b.drop_last();
        assert forall |i: int| 0 <= i < b0.len() implies step(#[trigger] t[i], b0[i], t[i + 1]) by { assert(step(st[i], b[i], st[i + 1])); }
        fixed_hungry(t, c, b0);
        assert(t.last() == st[n - 1]);
        assert forall |i: int| 0 <= i < b.len() implies (#[trigger] st[i]).current_command is Some && hungry(st[i].current_command->0) by {
            if i < n - 1 { assert(t[i] == st[i]); }
        }
        assert(step(st[n - 1], b[n - 1], st[n]));
    }
}
}
fn main() {}
