//@meta rlimit 20
//@meta assume the output renderer is told what to print and does not move the printer (render_text, render_graphics, render_image leave the state alone)
//@meta assume String and str are sequences of characters; String::eq, chars().count(), collecting characters into a string and char::is_whitespace do what their names say (assumed contracts on std)
use vstd::prelude::*;
use std::mem;
//@include context.inc
verus! {
// ---------------------------------------------------------------- assumed on std
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub uninterp spec fn white(c: char) -> bool;
#[verifier::external_body]
fn verif_white(c: &char) -> (r: bool) ensures r == white(*c) { c.is_whitespace() }
/// s == "c"
#[verifier::external_body]
fn verif_is(s: &String, c: char) -> (r: bool) ensures r == (s@ == seq![c]) { s.chars().eq([c]) }
#[verifier::external_body]
fn verif_count(s: &String) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body]
fn verif_chars(s: &String) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
/// v.iter().skip(from).take(n).collect::<String>()
#[verifier::external_body]
fn verif_collect(v: &Vec<char>, from: usize, n: usize) -> (r: String)
    ensures r@ == v@.subrange(least(from as int, v@.len() as int), least(from + n, v@.len() as int))
{ v.iter().skip(from).take(n).cloned().collect::<String>() }

// ---------------------------------------------------------------- text spans
//@use thermal_parser/src/text.rs
//@item struct Dimensions
//@item struct TextSpan
impl Clone for TextSpan {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn width(s: TextSpan) -> int { s.text@.len() * s.character_width }
/// the same style with other characters
pub open spec fn styled(a: TextSpan, b: TextSpan) -> bool {
    a == (TextSpan { text: a.text, dimensions: a.dimensions, ..b })
}
/// the characters of spans, in order
pub open spec fn texts(s: Seq<TextSpan>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { texts(s.drop_last()) + s.last().text@ }
}
proof fn texts_push(s: Seq<TextSpan>, x: TextSpan)
    ensures texts(s.push(x)) == texts(s) + x.text@
{
    assert(s.push(x).drop_last() =~= s);
}
proof fn text_facts()
    ensures
        forall |s: Seq<TextSpan>, x: TextSpan| #[trigger] texts(s.push(x)) == texts(s) + x.text@,
        forall |s: Seq<char>, a: int, b: int| 0 <= a <= b <= s.len() ==> #[trigger] (s.subrange(0, a) + s.subrange(a, b)) == s.subrange(0, b),
        forall |s: Seq<char>, t: Seq<char>, x: char| #[trigger] (s + t.push(x)) == (s + t).push(x),
        forall |s: Seq<char>, t: Seq<char>| t.len() == 0 ==> #[trigger] (s + t) == s && t + s == s,
{
    assert forall |s: Seq<TextSpan>, x: TextSpan| #[trigger] texts(s.push(x)) == texts(s) + x.text@ by { texts_push(s, x); }
    assert forall |s: Seq<char>, a: int, b: int| 0 <= a <= b <= s.len() implies #[trigger] (s.subrange(0, a) + s.subrange(a, b)) == s.subrange(0, b) by {
        assert(s.subrange(0, a) + s.subrange(a, b) =~= s.subrange(0, b));
    }
    assert forall |s: Seq<char>, t: Seq<char>, x: char| #[trigger] (s + t.push(x)) == (s + t).push(x) by { assert(s + t.push(x) =~= (s + t).push(x)); }
    assert forall |s: Seq<char>, t: Seq<char>| t.len() == 0 implies #[trigger] (s + t) == s && t + s == s by { assert(s + t =~= s); assert(t + s =~= s); }
}
/// r are the characters of s, cut into pieces
#[verifier::opaque]
pub open spec fn pieces(r: Seq<TextSpan>, s: TextSpan, first: int, rest: int) -> bool {
    &&& r.len() >= 1
    &&& texts(r) == s.text@
    &&& forall |i: int| 0 <= i < r.len() ==> styled(#[trigger] r[i], s)
    &&& r[0].text@.len() <= first
    &&& forall |i: int| 1 <= i < r.len() ==> 1 <= (#[trigger] r[i]).text@.len() <= rest
    &&& s.text@.len() > first ==> r.len() >= 2
    &&& r.len() <= s.text@.len() + 1
}
impl TextSpan {
//@fn TextSpan::character_count
//@ret r
//@sub self.text.chars().count() => verif_count(&self.text)
//@spec
    requires self.text@.len() <= u32::MAX
    ensures r == self.text@.len()
//@end
//@fn TextSpan::get_width
//@ret r
//@spec
    requires self.text@.len() <= u32::MAX, width(*self) <= u32::MAX
    ensures r == width(*self)
//@end
//@fn TextSpan::get_dimensions
//@spec
    requires old(self).text@.len() <= u32::MAX, width(*old(self)) <= u32::MAX
    ensures *final(self) == (TextSpan { dimensions: Some(Dimensions { x: area(*context).x, y: area(*context).y, w: width(*old(self)) as u32, h: old(self).character_height }), ..*old(self) })
//@end
//@fn TextSpan::clone_with
//@ret r
//@spec
    ensures r == (TextSpan { text: string, dimensions: None, ..*self })
//@end
//@fn TextSpan::break_apart
//@ret r
//@sub let chars: Vec<char> = self.text.chars().collect(); => let chars: Vec<char> = verif_chars(&self.text);
//@sub chars.iter().take($1).cloned().collect::<String>() => verif_collect(&chars, 0, $1)
//@sub chars.iter().skip($1).take($2).cloned().collect::<String>() => verif_collect(&chars, $1, $2)
//@sub self.clone_with("".to_string()) => self.clone_with(String::new())
//@spec
    requires line_length > 0, self.text@.len() + first_line_length + line_length <= usize::MAX
    ensures pieces(r@, *self, first_line_length as int, line_length as int)
//@at begin
    proof { reveal(pieces); text_facts(); assert(self.text@.subrange(0, self.text@.len() as int) =~= self.text@); }
//@at begin 1
    proof { text_facts(); }
//@loop 1 while index < chars.len()
    invariant
        line_length > 0, chars@ == self.text@,
        self.text@.len() + first_line_length + line_length <= usize::MAX,
        index <= chars@.len() + first_line_length + line_length,
        result@.len() >= 1,
        texts(result@) == self.text@.subrange(0, least(index as int, chars@.len() as int)),
        forall |i: int| 0 <= i < result@.len() ==> styled(#[trigger] result@[i], *self),
        result@[0].text@.len() <= first_line_length,
        forall |i: int| 1 <= i < result@.len() ==> 1 <= (#[trigger] result@[i]).text@.len() <= line_length,
        result@.len() <= least(index as int, chars@.len() as int) + 1,
        index < self.text@.len() || result@.len() >= 2 || self.text@.len() <= first_line_length,
    decreases chars@.len() + line_length + first_line_length - index
//@end
//@fn TextSpan::break_into_words
//@ret r
//@sub c.is_whitespace() => verif_white(&c)
//@spec
    requires true
    ensures cut(r@, *self)
//@at begin
    proof { text_facts(); assert(self.text@.subrange(0, self.text@.len() as int) =~= self.text@); }
//@at begin 1
    proof { text_facts(); assert(self.text@.subrange(0, it.index() + 1) =~= self.text@.subrange(0, it.index() as int).push(c)); }
//@loop 1 it=it for c in self.text.chars()
    invariant
        it.seq() == self.text@,
        texts(words@) + current_word@ == self.text@.subrange(0, it.index() as int),
        forall |i: int| 0 <= i < words@.len() ==> styled(#[trigger] words@[i], *self) && is_word(words@[i].text@) && white(words@[i].text@.last()),
        forall |i: int| 0 <= i < current_word@.len() ==> !white(#[trigger] current_word@[i]),
//@end
}
/// white space only at the end
pub open spec fn is_word(t: Seq<char>) -> bool {
    t.len() > 0 && forall |i: int| 0 <= i < t.len() - 1 ==> !white(#[trigger] t[i])
}
/// ws are the words of s
pub open spec fn cut(ws: Seq<TextSpan>, s: TextSpan) -> bool {
    &&& texts(ws) == s.text@
    &&& forall |i: int| 0 <= i < ws.len() ==> styled(#[trigger] ws[i], s) && is_word(ws[i].text@)
    &&& forall |i: int| 0 <= i < ws.len() - 1 ==> white((#[trigger] ws[i]).text@.last())
}
}

verus! {
// ---------------------------------------------------------------- what is printed
//@use thermal_parser/src/graphics.rs
//@item struct Barcode
//@item struct Rectangle
//@item enum VectorGraphic
//@item enum ImageFlow
//@item struct Image

/// what the output renderer is told
pub enum Call {
    Text { spans: Seq<TextSpan>, offset: u32, height: u32, justify: TextJustify },
    Graphics(Seq<VectorGraphic>),
    Image(Image),
}
/// Box<dyn OutputRenderer<Output>>
#[verifier::external_body]
#[verifier::reject_recursive_types(Output)]
pub struct AnyRenderer<Output> { _x: core::marker::PhantomData<Output> }
pub uninterp spec fn calls<Output>(r: AnyRenderer<Output>) -> Seq<Call>;
impl<Output> AnyRenderer<Output> {
    #[verifier::external_body]
    pub fn render_text(&mut self, context: &mut Context, spans: &Vec<TextSpan>, x_offset: u32, max_height: u32, text_justify: TextJustify)
        ensures
            *final(context) == *old(context),
            calls(*final(self)) == calls(*old(self)).push(Call::Text { spans: spans@, offset: x_offset, height: max_height, justify: text_justify }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn render_graphics(&mut self, context: &mut Context, graphics: &Vec<VectorGraphic>)
        ensures *final(context) == *old(context), calls(*final(self)) == calls(*old(self)).push(Call::Graphics(graphics@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn render_image(&mut self, context: &mut Context, image: &Image)
        ensures *final(context) == *old(context), calls(*final(self)) == calls(*old(self)).push(Call::Image(*image)),
    { unimplemented!() }
}

pub open spec fn join(s: Seq<Seq<TextSpan>>) -> Seq<TextSpan>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { join(s.drop_last()) + s.last() }
}
/// all spans of lines, in order
pub open spec fn flat(s: Seq<Vec<TextSpan>>) -> Seq<TextSpan>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last()@ }
}
/// all printed spans, in order
pub open spec fn printed(ts: Seq<Call>) -> Seq<TextSpan>
    decreases ts.len()
{
    if ts.len() == 0 { Seq::empty() } else { printed(ts.drop_last()) + (match ts.last() { Call::Text { spans, .. } => spans, _ => Seq::empty() }) }
}
/// how high a line is
pub open spec fn tall(least: int, s: Seq<TextSpan>) -> int
    decreases s.len()
{
    if s.len() == 0 { least } else { max2(tall(least, s.drop_last()), s.last().character_height as int) }
}
pub open spec fn start(s: TextSpan, base: int) -> int { match s.dimensions { Some(d) => max2(0, d.x - base), None => 0 } }
/// how far to the right a line reaches
pub open spec fn reach(s: Seq<TextSpan>, base: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { max2(reach(s.drop_last(), base), start(s.last(), base) + width(s.last())) }
}
pub open spec fn is_char(s: TextSpan, c: char) -> bool { s.text@ == seq![c] }
/// the spans a word is printed as
#[verifier::opaque]
pub open spec fn shown_as(out: Seq<TextSpan>, w: TextSpan, wd: int) -> bool {
    if is_char(w, '\n') || is_char(w, '\t') { out.len() == 0 }
    else if width(w) <= wd { out.len() == 1 && out[0] == (TextSpan { dimensions: out[0].dimensions, ..w }) }
    else { texts(out) == w.text@ && forall |i: int| 0 <= i < out.len() ==> styled(#[trigger] out[i], w) }
}
/// inside the line, unless it is one character that is wider than the line
pub open spec fn placed(s: TextSpan, base: int, wd: int) -> bool {
    match s.dimensions {
        Some(d) => fine(s) && s.text@.len() <= 0x20_0000 && d.w == width(s) && d.h == s.character_height
            && (width(s) == 0 || d.x - base + width(s) <= wd || s.text@.len() == 1 && width(s) > wd && d.x == base),
        None => false,
    }
}
#[verifier::opaque]
pub open spec fn line_ok(l: Seq<TextSpan>, base: int, wd: int) -> bool {
    &&& forall |i: int| 0 <= i < l.len() ==> placed(#[trigger] l[i], base, wd)
    &&& forall |i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).dimensions->0.y == (#[trigger] l[j]).dimensions->0.y
            && l[i].dimensions->0.x + width(l[i]) <= l[j].dimensions->0.x
}
/// one line is printed, offset as a whole by its justification
pub open spec fn line_call(c: Call, base: int, wd: int) -> bool {
    match c {
        Call::Text { spans, offset, height, justify } => {
            let lw = reach(spans, base);
            &&& spans.len() > 0 && line_ok(spans, base, wd)
            &&& justify == spans[0].justify
            &&& height == tall(0, spans)
            &&& offset == if lw >= wd { 0 } else if justify == TextJustify::Right { wd - lw } else if justify == TextJustify::Center { (wd - lw) / 2 } else { 0 }
        },
        _ => false,
    }
}
pub open spec fn laid_out(spans: Seq<TextSpan>, wss: Seq<Seq<TextSpan>>, shown: Seq<Seq<TextSpan>>, ts: Seq<Call>, base: int, wd: int) -> bool {
    &&& wss.len() == spans.len() && forall |i: int| 0 <= i < spans.len() ==> cut(#[trigger] wss[i], spans[i])
    &&& shown.len() == join(wss).len() && forall |i: int| 0 <= i < shown.len() ==> shown_as(#[trigger] shown[i], join(wss)[i], wd)
    &&& printed(ts) == join(shown)
    &&& forall |i: int| 0 <= i < ts.len() ==> line_call(#[trigger] ts[i], base, wd)
}
/// sizes a command can select
pub open spec fn fine(s: TextSpan) -> bool { 1 <= s.character_width <= 256 && s.character_height <= 256 }
pub open spec fn small(n: int) -> bool { 0 <= n < 0x2000_0000 }
pub open spec fn room(c: Context, spans: Seq<TextSpan>) -> bool {
    &&& small(area(c).x as int) && small(area(c).w as int) && small(base_x(c)) && small(base_y(c))
    &&& area(c).y + 256 * texts(spans).len() <= 0xF000_0000
    &&& c.text.tabs@.len() <= 256
    &&& forall |i: int| 0 <= i < spans.len() ==> fine(#[trigger] spans[i])
    &&& texts(spans).len() <= 0x20_0000
}

proof fn seq_facts()
    ensures
        forall |s: Seq<Seq<TextSpan>>, x: Seq<TextSpan>| #[trigger] join(s.push(x)) == join(s) + x,
        forall |s: Seq<Vec<TextSpan>>, x: Vec<TextSpan>| #[trigger] flat(s.push(x)) == flat(s) + x@,
        forall |s: Seq<Call>, x: Call| #[trigger] printed(s.push(x)) == printed(s) + (match x { Call::Text { spans, .. } => spans, _ => Seq::empty() }),
        forall |l: int, s: Seq<TextSpan>, x: TextSpan| #[trigger] tall(l, s.push(x)) == max2(tall(l, s), x.character_height as int),
        forall |b: int, s: Seq<TextSpan>, x: TextSpan| #[trigger] reach(s.push(x), b) == max2(reach(s, b), start(x, b) + width(x)),
        forall |s: Seq<TextSpan>, t: Seq<TextSpan>| t.len() == 0 ==> #[trigger] (s + t) == s,
        forall |s: Seq<TextSpan>, t: Seq<TextSpan>, x: TextSpan| #[trigger] (s + t.push(x)) == (s + t).push(x),
{
    assert forall |s: Seq<Seq<TextSpan>>, x: Seq<TextSpan>| #[trigger] join(s.push(x)) == join(s) + x by { assert(s.push(x).drop_last() =~= s); }
    assert forall |s: Seq<Vec<TextSpan>>, x: Vec<TextSpan>| #[trigger] flat(s.push(x)) == flat(s) + x@ by { assert(s.push(x).drop_last() =~= s); }
    assert forall |s: Seq<Call>, x: Call| #[trigger] printed(s.push(x)) == printed(s) + (match x { Call::Text { spans, .. } => spans, _ => Seq::empty() }) by { assert(s.push(x).drop_last() =~= s); }
    assert forall |l: int, s: Seq<TextSpan>, x: TextSpan| #[trigger] tall(l, s.push(x)) == max2(tall(l, s), x.character_height as int) by { assert(s.push(x).drop_last() =~= s); }
    assert forall |b: int, s: Seq<TextSpan>, x: TextSpan| #[trigger] reach(s.push(x), b) == max2(reach(s, b), start(x, b) + width(x)) by { assert(s.push(x).drop_last() =~= s); }
    assert forall |s: Seq<TextSpan>, t: Seq<TextSpan>| t.len() == 0 implies #[trigger] (s + t) == s by { assert(s + t =~= s); }
    assert forall |s: Seq<TextSpan>, t: Seq<TextSpan>, x: TextSpan| #[trigger] (s + t.push(x)) == (s + t).push(x) by { assert(s + t.push(x) =~= (s + t).push(x)); }
}
proof fn line_facts()
    ensures
        forall |s: Seq<Seq<TextSpan>>, x: Seq<TextSpan>| #[trigger] join(s.push(x)) == join(s) + x,
        forall |s: Seq<Vec<TextSpan>>, x: Vec<TextSpan>| #[trigger] flat(s.push(x)) == flat(s) + x@,
        forall |s: Seq<TextSpan>, t: Seq<TextSpan>| t.len() == 0 ==> #[trigger] (s + t) == s,
        forall |s: Seq<TextSpan>, t: Seq<TextSpan>, x: TextSpan| #[trigger] (s + t.push(x)) == (s + t).push(x),
{ seq_facts(); }
proof fn texts_join(a: Seq<TextSpan>, b: Seq<TextSpan>)
    ensures texts(a + b) == texts(a) + texts(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(texts(a) + texts(b) =~= texts(a)); }
    else {
        texts_join(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(texts(a) + (texts(b.drop_last()) + b.last().text@) =~= (texts(a) + texts(b.drop_last())) + b.last().text@);
    }
}
/// a part is not longer than the whole
proof fn texts_part(s: Seq<TextSpan>, i: int)
    requires 0 <= i < s.len()
    ensures texts(s.subrange(0, i)).len() + s[i].text@.len() <= texts(s).len()
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.subrange(0, i) =~= s.drop_last()); }
    else { texts_part(s.drop_last(), i); assert(s.drop_last().subrange(0, i) =~= s.subrange(0, i)); }
}
proof fn tall_bound(l: int, s: Seq<TextSpan>)
    requires 0 <= l <= 256, forall |i: int| 0 <= i < s.len() ==> fine(#[trigger] s[i])
    ensures l <= tall(l, s) <= 256
    decreases s.len()
{
    if s.len() > 0 { tall_bound(l, s.drop_last()); assert(fine(s[s.len() - 1])); }
}

//@use thermal_parser/src/context.rs
impl Context {
//@fn Context::newline_for_spans
//@spec
    requires area(*old(self)).y + tall(old(self).text.line_spacing as int, spans@) <= u32::MAX
    ensures *final(self) == moved(*old(self), base_x(*old(self)), area(*old(self)).y + tall(old(self).text.line_spacing as int, spans@))
//@loop 1 it=it for span in spans
    invariant
        it.seq().len() == spans@.len(), forall |i: int| 0 <= i < spans@.len() ==> *#[trigger] it.seq()[i] == spans@[i],
        line_height == tall(self.text.line_spacing as int, spans@.subrange(0, it.index() as int)),
        *self == *old(self),
//@at begin 1
    proof { seq_facts(); assert(spans@.subrange(0, it.index() + 1) =~= spans@.subrange(0, it.index() as int).push(spans@[it.index() as int])); }
//@at after 1
    proof { assert(spans@.subrange(0, spans@.len() as int) =~= spans@); }
//@end
}

/// the characters of words, without line feeds and tabs
pub open spec fn kept(ws: Seq<TextSpan>) -> Seq<char>
    decreases ws.len()
{
    if ws.len() == 0 { Seq::empty() }
    else { kept(ws.drop_last()) + (if is_char(ws.last(), '\n') || is_char(ws.last(), '\t') { Seq::empty() } else { ws.last().text@ }) }
}
proof fn nothing_lost(ws: Seq<TextSpan>, shown: Seq<Seq<TextSpan>>, wd: int)
    requires shown.len() == ws.len(), forall |i: int| 0 <= i < shown.len() ==> shown_as(#[trigger] shown[i], ws[i], wd)
    ensures texts(join(shown)) == kept(ws)
    decreases ws.len()
{
    if ws.len() > 0 {
        let n = ws.len() - 1;
        let s = shown.drop_last();
        assert forall |i: int| 0 <= i < s.len() implies shown_as(#[trigger] s[i], ws.drop_last()[i], wd) by { assert(s[i] == shown[i]); }
        nothing_lost(ws.drop_last(), s, wd);
        texts_join(join(s), shown.last());
        assert(shown_as(shown[n], ws[n], wd));
        reveal(shown_as);
        if !is_char(ws[n], '\n') && !is_char(ws[n], '\t') && width(ws[n]) <= wd {
            assert(shown[n] =~= seq![shown[n][0]]);
            texts_push(Seq::empty(), shown[n][0]);
            assert(Seq::<TextSpan>::empty().push(shown[n][0]) =~= seq![shown[n][0]]);
            assert(Seq::<char>::empty() + ws[n].text@ =~= ws[n].text@);
        } else if is_char(ws[n], '\n') || is_char(ws[n], '\t') {
            assert(shown[n] =~= Seq::<TextSpan>::empty());
        }
    } else { assert(shown =~= Seq::<Seq<TextSpan>>::empty()); }
}
/// C22: every character is printed once and in order (line feeds and tabs are moves)
proof fn every_character_once(spans: Seq<TextSpan>, wss: Seq<Seq<TextSpan>>, shown: Seq<Seq<TextSpan>>, ts: Seq<Call>, base: int, wd: int)
    requires laid_out(spans, wss, shown, ts, base, wd)
    ensures texts(printed(ts)) == kept(join(wss)), texts(join(wss)) == texts(spans)
{
    nothing_lost(join(wss), shown, wd);
    all_words(spans, wss);
}
proof fn all_words(spans: Seq<TextSpan>, wss: Seq<Seq<TextSpan>>)
    requires wss.len() == spans.len(), forall |i: int| 0 <= i < spans.len() ==> cut(#[trigger] wss[i], spans[i])
    ensures texts(join(wss)) == texts(spans)
    decreases spans.len()
{
    if spans.len() > 0 {
        let w = wss.drop_last();
        assert forall |i: int| 0 <= i < w.len() implies cut(#[trigger] w[i], spans.drop_last()[i]) by { assert(w[i] == wss[i]); }
        all_words(spans.drop_last(), w);
        assert(cut(wss[spans.len() - 1], spans[spans.len() - 1]));
        texts_join(join(w), wss.last());
    } else { assert(wss =~= Seq::<Seq<TextSpan>>::empty()); }
}

/// the line that is being filled ends at the position of the printer
#[verifier::opaque]
pub open spec fn at_end(l: Seq<TextSpan>, c: Context, base: int, wd: int) -> bool {
    &&& line_ok(l, base, wd)
    &&& forall |i: int| 0 <= i < l.len() ==> fine(#[trigger] l[i]) && l[i].dimensions->0.y == area(c).y && l[i].dimensions->0.x + width(l[i]) <= area(c).x
}
/// nothing is on a new line
proof fn new_line(base: int, wd: int)
    ensures forall |l: Seq<TextSpan>, c: Context| l.len() == 0 ==> #[trigger] at_end(l, c, base, wd), forall |l: Seq<TextSpan>| l.len() == 0 ==> #[trigger] line_ok(l, base, wd)
{ reveal(at_end); reveal(line_ok); }
/// a line with one more span
proof fn add_span(l: Seq<TextSpan>, s: TextSpan, c: Context, d: Context, base: int, wd: int)
    requires
        at_end(l, c, base, wd), placed(s, base, wd), s.dimensions->0.x == area(c).x, s.dimensions->0.y == area(c).y,
        area(d).x == area(c).x + width(s), area(d).y == area(c).y,
    ensures at_end(l.push(s), d, base, wd)
{
    reveal(at_end); reveal(line_ok);
    line_width_of(s);
}
/// further to the right on the same line
proof fn skip_on(l: Seq<TextSpan>, c: Context, d: Context, base: int, wd: int)
    requires at_end(l, c, base, wd), area(d).x >= area(c).x, area(d).y == area(c).y
    ensures at_end(l, d, base, wd)
{ reveal(at_end); reveal(line_ok); }
/// what a line advances by
proof fn line_height(l: Seq<TextSpan>, c: Context, base: int, wd: int)
    requires at_end(l, c, base, wd), c.text.line_spacing <= 256
    ensures 0 <= tall(c.text.line_spacing as int, l) <= 256, line_ok(l, base, wd)
{
    reveal(at_end); reveal(line_ok);
    tall_bound(c.text.line_spacing as int, l);
}
/// every piece fits its line
#[verifier::opaque]
pub open spec fn fitting(b: Seq<TextSpan>, w: TextSpan, rem: int, wd: int) -> bool {
    forall |j: int| 0 <= j < b.len() ==> fits_at(b, j, w, rem, wd)
}
pub open spec fn fits_at(b: Seq<TextSpan>, j: int, w: TextSpan, rem: int, wd: int) -> bool {
    &&& styled(b[j], w) && b[j].text@.len() <= w.text@.len()
    &&& j == 0 ==> width(b[j]) <= rem
    &&& j >= 1 ==> width(b[j]) <= wd || b[j].text@.len() == 1
}
proof fn fit(b: Seq<TextSpan>, w: TextSpan, rem: int, wd: int)
    requires
        fine(w), w.text@.len() <= 0x20_0000, width(w) > wd >= rem >= 0,
        pieces(b, w, rem / (w.character_width as int), max2(wd / (w.character_width as int), 1)),
    ensures fitting(b, w, rem, wd), 2 <= b.len() <= w.text@.len() + 1, texts(b) == w.text@
{
    reveal(pieces); reveal(fitting);
    let c = w.character_width as int;
    assert forall |j: int| 0 <= j < b.len() implies fits_at(b, j, w, rem, wd) by {
        texts_part(b, j);
        assert(styled(b[j], w));
        if j == 0 { fits_line(b[0].text@.len() as int, rem, c); }
        else if wd / c >= 1 { fits_line(b[j].text@.len() as int, wd, c); }
    }
    if w.text@.len() <= rem / c { fits_line(w.text@.len() as int, rem, c); }
}
proof fn fits(b: Seq<TextSpan>, j: int, w: TextSpan, rem: int, wd: int)
    requires fitting(b, w, rem, wd), 0 <= j < b.len()
    ensures fits_at(b, j, w, rem, wd)
{ reveal(fitting); }
#[verifier::opaque]
pub open spec fn all_styled(done: Seq<TextSpan>, w: TextSpan) -> bool { forall |j: int| 0 <= j < done.len() ==> styled(#[trigger] done[j], w) }
proof fn styled_more(done: Seq<TextSpan>, s: TextSpan, w: TextSpan)
    requires all_styled(done, w), styled(s, w)
    ensures all_styled(done.push(s), w), texts(done.push(s)) == texts(done) + s.text@
{ reveal(all_styled); texts_push(done, s); }
proof fn shown_broken(done: Seq<TextSpan>, w: TextSpan, wd: int)
    requires all_styled(done, w), texts(done) == w.text@, width(w) > wd, !is_char(w, '\n'), !is_char(w, '\t')
    ensures shown_as(done, w, wd)
{ reveal(all_styled); reveal(shown_as); }
proof fn line_width_of(s: TextSpan)
    requires fine(s), s.text@.len() <= 0x20_0000
    ensures 0 <= width(s) <= 0x2000_0000
{ line_width(s, 0x20_0000); }
proof fn fits_line(n: int, a: int, w: int)
    requires 0 <= n <= a / w, w >= 1, a >= 0
    ensures n * w <= a
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, w);
    assert(n * w <= (a / w) * w) by(nonlinear_arith) requires n <= a / w, w >= 1;
    assert((a / w) * w == w * (a / w)) by(nonlinear_arith);
}
proof fn line_width(s: TextSpan, n: int)
    requires fine(s), s.text@.len() <= n <= 0x20_0000
    ensures 0 <= width(s) <= 0x2000_0000, s.text@.len() > 0 ==> width(s) > 0
{
    assert(0 <= s.text@.len() * s.character_width <= n * 256) by(nonlinear_arith) requires fine(s), s.text@.len() <= n;
    assert(s.text@.len() > 0 ==> s.text@.len() * s.character_width > 0) by(nonlinear_arith) requires fine(s);
}

/// dark modules of a barcode as rectangles, from left to right, at the top y
pub open spec fn module_x(b: Barcode, c: Context, i: int) -> int { base_x(c) + justified(c, b.points@.len() * b.point_width) + i * b.point_width }
pub open spec fn fits_in(x: int, w: int, c: Context) -> bool { x + w <= base_x(c) + area(c).w || w == 0 }
pub open spec fn bars(b: Barcode, c: Context, y: int, n: int) -> Seq<VectorGraphic>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if b.points@[n - 1] > 0 && fits_in(module_x(b, c, n - 1), b.point_width as int, c) {
        bars(b, c, y, n - 1).push(VectorGraphic::Rectangle(Rectangle { x: module_x(b, c, n - 1) as u32, y: y as u32, w: b.point_width as u32, h: b.point_height as u32 }))
    } else { bars(b, c, y, n - 1) }
}
pub open spec fn text_once(ts: Seq<Call>, b: Barcode, c: Context) -> bool {
    exists |wss: Seq<Seq<TextSpan>>, shown: Seq<Seq<TextSpan>>| #[trigger] laid_out(seq![b.text], wss, shown, ts, base_x(c), area(c).w as int)
}
/// the readable text above and below a barcode
pub open spec fn read_out(above: Seq<Call>, below: Seq<Call>, b: Barcode, c: Context) -> bool {
    let h = c.barcode.human_readable;
    &&& if h == HumanReadableInterface::Above || h == HumanReadableInterface::Both { text_once(above, b, c) } else { above.len() == 0 }
    &&& if h == HumanReadableInterface::Below || h == HumanReadableInterface::Both { text_once(below, b, c) } else { below.len() == 0 }
}
/// where an image goes
pub open spec fn image_at(i: Image, c: Context) -> (int, int) {
    match i.flow {
        ImageFlow::Inline => if i.w > remaining(c) { (base_x(c), area(c).y + c.text.line_spacing) } else { (area(c).x as int, area(c).y as int) },
        ImageFlow::Block => if c.page_mode.enabled { (area(c).x as int, area(c).y as int) } else { (base_x(c) + justified(c, i.w as int), area(c).y as int) },
        ImageFlow::None => (area(c).x as int, area(c).y as int),
    }
}
/// dark modules of a 2D code as rectangles, row by row
pub open spec fn dots(b: Code2D, c: Context, n: int) -> Seq<VectorGraphic>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        let x = base_x(c) + justified(c, b.width * b.point_width) + ((n - 1) % (b.width as int)) * b.point_width;
        let y = area(c).y + ((n - 1) / (b.width as int)) * b.point_height;
        if b.points@[n - 1] > 0 && fits_in(x, b.point_width as int, c) {
            dots(b, c, n - 1).push(VectorGraphic::Rectangle(Rectangle { x: x as u32, y: y as u32, w: b.point_width, h: b.point_height }))
        } else { dots(b, c, n - 1) }
    }
}
pub open spec fn last_row(b: Code2D) -> int { if b.points@.len() == 0 { 0 } else { (b.points@.len() - 1) / (b.width as int) } }
/// counting along the rows of a grid
proof fn grid_step(k: int, w: int)
    requires k >= 0, w >= 2
    ensures
        0 <= k % w < w, 0 <= k / w <= k,
        k == 0 ==> k % w == 0 && k / w == 0,
        k > 0 && (k + 1) % w == 1 ==> k % w == 0 && k / w == (k - 1) / w + 1,
        k > 0 && (k + 1) % w != 1 ==> k % w == (k - 1) % w + 1 && k / w == (k - 1) / w,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, w);
    vstd::arithmetic::div_mod::lemma_mod_bound(k, w);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(k, w);
    assert(0 <= k / w <= k) by(nonlinear_arith) requires k == w * (k / w) + k % w, 0 <= k % w < w, w >= 2, k >= 0;
    let q = k / w;
    let c = k % w;
    assert(w * q == q * w) by(nonlinear_arith);
    if c + 1 < w { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k + 1, w, q, c + 1); }
    else {
        assert(k + 1 == (q + 1) * w) by(nonlinear_arith) requires k == q * w + c, c + 1 == w;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k + 1, w, q + 1, 0);
    }
    if k > 0 {
        if c > 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k - 1, w, q, c - 1); }
        else {
            assert(k - 1 == (q - 1) * w + (w - 1)) by(nonlinear_arith) requires k == q * w;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k - 1, w, q - 1, w - 1);
        }
    }
}
pub open spec fn barcode_out(b: Barcode, c0: Context, c1: Context, before: Seq<Call>, after: Seq<Call>, above: Seq<Call>, below: Seq<Call>, y: int) -> bool {
    &&& after == before + above.push(Call::Graphics(bars(b, c0, y, b.points@.len() as int))) + below
    &&& read_out(above, below, b, c0)
    &&& y >= area(c0).y && (c0.barcode.human_readable != HumanReadableInterface::Above && c0.barcode.human_readable != HumanReadableInterface::Both ==> y == area(c0).y)
    &&& area(c1).y >= y + b.point_height && area(c1).x == base_x(c0)
}
/// what process_text promises, in the terms of text_once
proof fn came(c0s: Seq<Call>, c1s: Seq<Call>, b: Barcode, c: Context)
    requires exists |wss: Seq<Seq<TextSpan>>, shown: Seq<Seq<TextSpan>>, ts: Seq<Call>| c1s == c0s + ts && #[trigger] laid_out(seq![b.text], wss, shown, ts, base_x(c), area(c).w as int)
    ensures
        c1s == c0s + c1s.subrange(c0s.len() as int, c1s.len() as int),
        text_once(c1s.subrange(c0s.len() as int, c1s.len() as int), b, c),
{
    let (wss, shown, ts) = choose |wss: Seq<Seq<TextSpan>>, shown: Seq<Seq<TextSpan>>, ts: Seq<Call>| c1s == c0s + ts && #[trigger] laid_out(seq![b.text], wss, shown, ts, base_x(c), area(c).w as int);
    assert(c1s.subrange(c0s.len() as int, c1s.len() as int) =~= ts);
}
pub open spec fn room_below(c: Context) -> bool {
    &&& small(area(c).x as int) && small(area(c).y as int) && small(area(c).w as int) && small(base_x(c)) && small(base_y(c))
    &&& c.text.tabs@.len() <= 256
}

//@use thermal_renderer/src/renderer.rs
//@item struct DebugProfile
//@item enum RenderErrorKind
//@item struct RenderError
#[verifier::reject_recursive_types(Output)]
//@item struct Renderer public with <'a, Output> => <Output> and &'a mut Box<dyn OutputRenderer<Output>> => AnyRenderer<Output>
impl<Output> Renderer<Output> {
//@fn Renderer::collect_text
//@spec
    ensures *final(self) == (Renderer { span_buffer: final(self).span_buffer, ..*old(self) }), final(self).span_buffer@ == old(self).span_buffer@.push(text)
//@end
//@fn Renderer::process_text
//@sub word.text.eq("\n") => verif_is(&word.text, '\n')
//@sub word.text.eq("\t") => verif_is(&word.text, '\t')
//@sub for (i, broke) in broken.iter_mut().enumerate() { => let mut verif_i: usize = 0; while verif_i < broken.len() { let i = verif_i; verif_i += 1; let broke = &mut broken[i];
//@sub for line in &lines { => let mut verif_l: usize = 0; while verif_l < lines.len() { let line = &lines[verif_l]; verif_l += 1;
//@sub self.log_debug_icon(...); => ();
//@spec
    requires room(old(self).context, old(self).span_buffer@)
    ensures
        final(self).span_buffer@.len() == 0,
        elsewhere(old(self).context, final(self).context),
        area(final(self).context).x <= 0x7000_0000,
        area(old(self).context).y <= area(final(self).context).y <= area(old(self).context).y + 256 * texts(old(self).span_buffer@).len(),
        final(self).output_buffer == old(self).output_buffer && final(self).error_buffer == old(self).error_buffer && final(self).debug_profile == old(self).debug_profile,
        exists |wss: Seq<Seq<TextSpan>>, shown: Seq<Seq<TextSpan>>, ts: Seq<Call>|
            calls(final(self).renderer) == calls(old(self).renderer) + ts
            && #[trigger] laid_out(old(self).span_buffer@, wss, shown, ts, base_x(old(self).context), area(old(self).context).w as int),
//@at begin
    proof { seq_facts(); text_facts(); }
    let ghost c0 = self.context;
    let ghost buf = self.span_buffer@;
    let ghost base = base_x(c0);
    let ghost wd = area(c0).w as int;
    let ghost calls0 = calls(self.renderer);
    proof {
        assert(calls0 + Seq::<Call>::empty() =~= calls0);
        if buf.len() == 0 {
            assert(laid_out(buf, Seq::empty(), Seq::empty(), Seq::empty(), base, wd));
        }
    }
//@at after let mut words: Vec<TextSpan> = vec![];
    let ghost mut wss: Seq<Seq<TextSpan>> = Seq::empty();
    proof { assert(texts(buf.subrange(0, 0)) =~= Seq::<char>::empty()); }
//@loop 1 it=it for span in &self.span_buffer
    invariant
        self.span_buffer@ == buf, self.context == c0, calls(self.renderer) == calls0,
        self.output_buffer == old(self).output_buffer && self.error_buffer == old(self).error_buffer && self.debug_profile == old(self).debug_profile,
        it.seq().len() == buf.len(), forall |i: int| 0 <= i < buf.len() ==> *#[trigger] it.seq()[i] == buf[i],
        wss.len() == it.index(), forall |i: int| 0 <= i < wss.len() ==> cut(#[trigger] wss[i], buf[i]),
        words@ == join(wss), texts(words@) == texts(buf.subrange(0, it.index() as int)),
        forall |i: int| 0 <= i < words@.len() ==> fine(#[trigger] words@[i]) && words@[i].text@.len() > 0,
        forall |i: int| 0 <= i < buf.len() ==> fine(#[trigger] buf[i]),
//@at begin 1
    proof { seq_facts(); text_facts(); assert(buf.subrange(0, it.index() + 1) =~= buf.subrange(0, it.index() as int).push(buf[it.index() as int])); }
    let ghost before = words@;
//@at before words.append(&mut spans);
    let ghost more = spans@;
    proof { texts_join(before, more); assert(forall |i: int| 0 <= i < more.len() ==> styled(#[trigger] more[i], *span)); }
//@at end 1
    proof {
        wss = wss.push(more);
        assert(words@ == before + more);
    }
//@at before let mut lines: Vec<Vec<TextSpan>> = vec![];
    let ghost all = words@;
    let ghost mut shown: Seq<Seq<TextSpan>> = Seq::empty();
    proof { assert(buf.subrange(0, buf.len() as int) =~= buf); assert(texts(all) == texts(buf)); }
    proof { assert(all.subrange(0, 0) =~= Seq::<TextSpan>::empty()); }
    proof { assert(c0 == moved(c0, area(c0).x as int, area(c0).y as int)); }
//@at before words.reverse();
    proof { new_line(base, wd); }
//@at before if !current_line.is_empty()
    proof {
        line_height(current_line@, self.context, base, wd);
        assert(all.subrange(0, all.len() as int) =~= all);
        assert(shown.len() == all.len());
    }
//@loop 2 while let Some(mut word) = words.pop()
    invariant
        room(c0, buf), base == base_x(c0), wd == area(c0).w, max_width == wd, texts(all).len() == texts(buf).len(),
        self.span_buffer@.len() == 0, calls(self.renderer) == calls0, elsewhere(c0, self.context),
        self.output_buffer == old(self).output_buffer && self.error_buffer == old(self).error_buffer && self.debug_profile == old(self).debug_profile,
        forall |i: int| 0 <= i < all.len() ==> fine(#[trigger] all[i]) && all[i].text@.len() > 0,
        words@.len() + shown.len() == all.len(),
        forall |i: int| 0 <= i < words@.len() ==> #[trigger] words@[i] == all[all.len() - 1 - i],
        forall |i: int| 0 <= i < shown.len() ==> shown_as(#[trigger] shown[i], all[i], wd),
        flat(lines@) + current_line@ == join(shown),
        forall |i: int| 0 <= i < lines@.len() ==> line_ok((#[trigger] lines@[i])@, base, wd),
        at_end(current_line@, self.context, base, wd),
        area(self.context).x <= 0x7000_0000,
        area(c0).y <= area(self.context).y <= area(c0).y + 256 * texts(all.subrange(0, shown.len() as int)).len(),
    ensures words@.len() == 0,
    decreases words@.len()
//@at begin 2
    let ghost k = shown.len() as int;
    let ghost cw = self.context;
    let ghost got = flat(lines@) + current_line@;
    proof {
        line_facts();
        assert(word == all[k]);
        texts_part(all, k);
        assert(all.subrange(0, k + 1) =~= all.subrange(0, k).push(all[k]));
        texts_push(all.subrange(0, k), all[k]);
        line_width(all[k], texts(all).len() as int);
        line_height(current_line@, cw, base, wd);
        new_line(base, wd);
    }
    let ghost line0 = current_line@;
    let ghost mut c2 = cw;
    let ghost mut wrapped = false;
//@at before #1 continue;
    proof { reveal(shown_as); shown = shown.push(Seq::empty()); }
//@at before #2 continue;
    proof { reveal(shown_as); shown = shown.push(Seq::empty()); skip_on(line0, cw, self.context, base, wd); }
//@loop 3 it=it for tab_len in &self.context.text.tabs
    invariant_except_break
        self.context == cw,
    invariant
        self.span_buffer@.len() == 0, calls(self.renderer) == calls0,
        self.output_buffer == old(self).output_buffer && self.error_buffer == old(self).error_buffer && self.debug_profile == old(self).debug_profile,
        it.seq().len() == cw.text.tabs@.len(), cw.text.tabs@.len() <= 256, fine(word), small(base_x(cw)),
        current_x == area(cw).x,
        current_tab_pos <= 65280 * it.index(),
    ensures
        elsewhere(cw, self.context), area(cw).x <= area(self.context).x <= max2(area(cw).x as int, 0x3000_0000), area(self.context).y == area(cw).y,
//@at begin 3
    proof { assert(*tab_len * word.character_width <= 65280) by(nonlinear_arith) requires 1 <= word.character_width <= 256, *tab_len <= 255; }
//@at before #3 continue;
    proof { reveal(shown_as); add_span(line0, current_line@.last(), cw, self.context, base, wd); assert(current_line@ =~= line0.push(current_line@.last())); shown = shown.push(seq![current_line@.last()]); }
//@at before let mut broken = word.break_apart(
    let ghost avail = avail_width as int;
    let ghost cwidth = word.character_width as int;
    proof {
        assert(avail / cwidth <= avail) by(nonlinear_arith) requires avail >= 0, cwidth >= 1;
        assert(wd / cwidth <= wd) by(nonlinear_arith) requires wd >= 0, cwidth >= 1;
        if word.text@.len() <= avail / cwidth { fits_line(word.text@.len() as int, avail, cwidth); }
    }
//@at before let broken_len = broken.len() - 1;
    let ghost b0 = broken@;
    let ghost mut done: Seq<TextSpan> = Seq::empty();
    proof {
        fit(b0, word, avail, wd);
        reveal(all_styled);
        assert(all_styled(done, word));
        assert(b0.subrange(0, 0) =~= Seq::<TextSpan>::empty());
        assert(join(shown) + done =~= join(shown));
    }
//@at after current_line.push(broke.clone());
    proof {
        styled_more(done, *broke, word);
        done = done.push(*broke);
        let d = moved(c1, area(c1).x + width(*broke), area(c1).y as int);
        add_span(line1, *broke, c1, d, base, wd);
        line_height(current_line@, d, base, wd);
        new_line(base, wd);
    }
//@at after 4
    proof {
        assert(b0.subrange(0, b0.len() as int) =~= b0);
        shown_broken(done, word, wd);
        shown = shown.push(done);
    }
//@at after #3 self.context.newline_for_spans(&current_line);
    proof { c2 = self.context; wrapped = true; }
//@at end 2
    proof {
        if wrapped {
            reveal(shown_as);
            add_span(Seq::empty(), current_line@.last(), c2, self.context, base, wd);
            assert(current_line@ =~= Seq::empty().push(current_line@.last()));
            shown = shown.push(seq![current_line@.last()]);
        }
    }
//@loop 4 while verif_i < broken.len()
    invariant
        room(c0, buf), base == base_x(c0), wd == area(c0).w, max_width == wd,
        self.span_buffer@.len() == 0, calls(self.renderer) == calls0, elsewhere(c0, self.context),
        self.output_buffer == old(self).output_buffer && self.error_buffer == old(self).error_buffer && self.debug_profile == old(self).debug_profile,
        verif_i <= broken@.len() == b0.len(), broken_len == b0.len() - 1, b0.len() >= 2,
        forall |j: int| verif_i <= j < b0.len() ==> #[trigger] broken@[j] == b0[j],
        all_styled(done, word),
        texts(done) == texts(b0.subrange(0, verif_i as int)),
        fitting(b0, word, remaining(cw), wd),
        fine(word), word.text@.len() <= 0x20_0000,
        flat(lines@) + current_line@ == join(shown) + done,
        forall |i: int| 0 <= i < lines@.len() ==> line_ok((#[trigger] lines@[i])@, base, wd),
        at_end(current_line@, self.context, base, wd),
        verif_i == 0 ==> self.context == cw,
        c0.text.line_spacing <= 256,
        0 < verif_i < b0.len() ==> area(self.context).x == base && current_line@.len() == 0,
        area(self.context).x <= 0x7000_0000,
        area(cw).y <= area(self.context).y <= area(cw).y + 256 * least(verif_i as int, b0.len() - 1),
        area(cw).y + 256 * b0.len() <= u32::MAX,
    decreases broken@.len() - verif_i
//@at begin 4
    let ghost line1 = current_line@;
    let ghost c1 = self.context;
    proof {
        line_facts();
        assert(b0.subrange(0, verif_i + 1) =~= b0.subrange(0, verif_i as int).push(b0[verif_i as int]));
        fits(b0, verif_i as int, word, remaining(cw), wd);
        texts_push(b0.subrange(0, verif_i as int), b0[verif_i as int]);
        line_width(b0[verif_i as int], word.text@.len() as int);
    }
//@at end 5
    proof {
        seq_facts();
        ts = ts.push(calls(self.renderer).last());
        assert(calls(self.renderer) =~= calls0 + ts);
    }
//@at after 5
    proof {
        assert(lines@.subrange(0, lines@.len() as int) =~= lines@);
        assert(laid_out(buf, wss, shown, ts, base, wd));
    }
//@at before let mut verif_l: usize = 0;
    let ghost mut ts: Seq<Call> = Seq::empty();
    let ghost cend = self.context;
    proof { seq_facts(); assert(lines@.subrange(0, 0) =~= Seq::<Vec<TextSpan>>::empty()); assert(calls0 + ts =~= calls0); }
//@loop 5 while verif_l < lines.len()
    invariant
        room(c0, buf), base == base_x(c0), wd == area(c0).w,
        verif_l <= lines@.len(), self.context == cend, elsewhere(c0, cend), self.span_buffer@.len() == 0,
        self.output_buffer == old(self).output_buffer && self.error_buffer == old(self).error_buffer && self.debug_profile == old(self).debug_profile,
        calls(self.renderer) == calls0 + ts, printed(ts) == flat(lines@.subrange(0, verif_l as int)),
        forall |i: int| 0 <= i < ts.len() ==> line_call(#[trigger] ts[i], base, wd),
        forall |i: int| 0 <= i < lines@.len() ==> line_ok((#[trigger] lines@[i])@, base, wd),
    decreases lines@.len() - verif_l
//@at begin 5
    proof {
        seq_facts();
        assert(lines@.subrange(0, verif_l + 1) =~= lines@.subrange(0, verif_l as int).push(lines@[verif_l as int]));
        assert(line_ok(lines@[verif_l as int]@, base, wd));
        assert(lines@[verif_l as int]@.subrange(0, 0) =~= Seq::<TextSpan>::empty());
        assert(lines@[verif_l as int]@.subrange(0, lines@[verif_l as int]@.len() as int) =~= lines@[verif_l as int]@);
    }
//@loop 6 it=it for span in line
    invariant
        it.seq().len() == line@.len(), forall |i: int| 0 <= i < line@.len() ==> *#[trigger] it.seq()[i] == line@[i],
        line_ok(line@, base, wd), base_x == base, 0 <= wd < 0x2000_0000, 0 <= base < 0x2000_0000,
        max_height == tall(0, line@.subrange(0, it.index() as int)), line_width == reach(line@.subrange(0, it.index() as int), base),
//@at begin 6
    proof {
        seq_facts();
        reveal(line_ok);
        assert(line@.subrange(0, it.index() + 1) =~= line@.subrange(0, it.index() as int).push(line@[it.index() as int]));
        assert(placed(line@[it.index() as int], base, wd));
        line_width_of(line@[it.index() as int]);
    }
//@end
//@fn Renderer::process_barcode
//@sub self.log_debug_icon(...); => ();
//@sub for bp in &barcode.points { => let mut verif_b: usize = 0; while verif_b < barcode.points.len() { let bp = &barcode.points[verif_b]; verif_b += 1;
//@spec
    requires
        old(self).span_buffer@.len() == 0, room_below(old(self).context),
        barcode.points@.len() <= 0x10_0000, fine(barcode.text), barcode.text.text@.len() <= 0x1_0000,
    ensures
        final(self).span_buffer@.len() == 0,
        elsewhere(old(self).context, final(self).context),
        final(self).output_buffer == old(self).output_buffer && final(self).error_buffer == old(self).error_buffer && final(self).debug_profile == old(self).debug_profile,
        exists |above: Seq<Call>, below: Seq<Call>, y: int| #[trigger] barcode_out(*barcode, old(self).context, final(self).context, calls(old(self).renderer), calls(final(self).renderer), above, below, y),
//@at begin
    let ghost c0 = self.context;
    let ghost calls0 = calls(self.renderer);
    let ghost n = barcode.points@.len() as int;
    let ghost pw = barcode.point_width as int;
    let ghost mut above: Seq<Call> = Seq::empty();
    let ghost mut below: Seq<Call> = Seq::empty();
    proof {
        assert(c0 == moved(c0, area(c0).x as int, area(c0).y as int));
        assert(calls0 + above =~= calls0);
        assert(self.span_buffer@.push(barcode.text) =~= seq![barcode.text]);
        texts_push(Seq::empty(), barcode.text);
        assert(Seq::<TextSpan>::empty().push(barcode.text) =~= seq![barcode.text]);
        assert(0 <= n * pw <= 0x10_0000 * 255) by(nonlinear_arith) requires 0 <= n <= 0x10_0000, 0 <= pw <= 255;
    }
//@at after #1 self.process_text();
    proof { above = calls(self.renderer).subrange(calls0.len() as int, calls(self.renderer).len() as int); came(calls0, calls(self.renderer), *barcode, c0); }
//@at before #1 self.context.set_x(
    let ghost y1 = area(self.context).y as int;
    proof { assert(calls(self.renderer) == calls0 + above); assert(y1 >= area(c0).y); }
    let ghost calls1 = calls(self.renderer);
//@at before let mut verif_b: usize = 0;
    let ghost cs = self.context;
    proof { assert(area(cs).x == module_x(*barcode, c0, 0)); }
//@loop 1 while verif_b < barcode.points.len()
    invariant
        room_below(c0), elsewhere(c0, cs), n == barcode.points@.len(), n <= 0x10_0000, pw == barcode.point_width,
        verif_b <= n, elsewhere(c0, self.context), area(self.context).y == y1, area(cs).y == y1,
        self.span_buffer@.len() == 0, calls(self.renderer) == calls1,
        self.output_buffer == old(self).output_buffer && self.error_buffer == old(self).error_buffer && self.debug_profile == old(self).debug_profile,
        0 <= n * pw <= 0x10_0000 * 255, module_x(*barcode, c0, 0) <= 0x4000_0000,
        area(self.context).x >= base_x(c0),
        (area(self.context).x == module_x(*barcode, c0, verif_b as int))
            || (area(self.context).x <= module_x(*barcode, c0, verif_b as int) && !fits_in(area(self.context).x as int, pw, c0)),
        graphics@ == bars(*barcode, c0, y1, verif_b as int),
    decreases barcode.points@.len() - verif_b
//@at begin 1
    proof {
        let i = verif_b as int;
        assert((i + 1) * pw == i * pw + pw) by(nonlinear_arith);
        assert(0 <= i * pw <= 0x10_0000 * 255) by(nonlinear_arith) requires 0 <= i < n, n <= 0x10_0000, 0 <= pw <= 255;
    }
//@at after self.renderer.render_graphics(&mut self.context, &graphics);
    let ghost calls2 = calls(self.renderer);
    proof { assert(calls2 =~= calls0 + above.push(Call::Graphics(bars(*barcode, c0, y1, n)))); assert(calls2 + below =~= calls2); }
//@at before #2 self.process_text();
    proof { assert(self.span_buffer@ =~= seq![barcode.text]); }
    let ghost c3 = self.context;
//@at after #2 self.process_text();
    proof { below = calls(self.renderer).subrange(calls2.len() as int, calls(self.renderer).len() as int); came(calls2, calls(self.renderer), *barcode, c0); assert(calls(self.renderer) == calls2 + below); }
//@at end
    proof { assert(barcode_out(*barcode, c0, self.context, calls0, calls(self.renderer), above, below, y1)); }
//@end
//@fn Renderer::process_code_2d
//@spec
    requires
        room_below(old(self).context), code_2d.width >= 2, code_2d.points@.len() <= 0x10_0000,
        code_2d.point_width <= 0x1_0000, code_2d.point_height <= 256, code_2d.width * code_2d.point_width <= 0x1000_0000,
    ensures
        *final(self) == (Renderer { context: final(self).context, renderer: final(self).renderer, ..*old(self) }),
        elsewhere(old(self).context, final(self).context),
        area(final(self).context).x == base_x(old(self).context),
        area(final(self).context).y == area(old(self).context).y + last_row(*code_2d) * code_2d.point_height,
        calls(final(self).renderer) == calls(old(self).renderer).push(Call::Graphics(dots(*code_2d, old(self).context, code_2d.points@.len() as int))),
//@at begin
    let ghost c0 = self.context;
    let ghost n = code_2d.points@.len() as int;
    let ghost w = code_2d.width as int;
    proof { assert(c0 == moved(c0, area(c0).x as int, area(c0).y as int)); vstd::arithmetic::mul::lemma_mul_nonnegative(w, code_2d.point_width as int); }
//@loop 1 it=it for p in &code_2d.points
    invariant
        it.seq().len() == n, forall |i: int| 0 <= i < n ==> *#[trigger] it.seq()[i] == code_2d.points@[i],
        n == code_2d.points@.len(), w == code_2d.width, w >= 2, n <= 0x10_0000,
        code_2d.point_width <= 0x1_0000, code_2d.point_height <= 256, 0 <= w * code_2d.point_width <= 0x1000_0000,
        room_below(c0), elsewhere(c0, *context),
        origin_x == justified(c0, w * code_2d.point_width),
        i == it.index() + 1,
        graphics@ == dots(*code_2d, c0, it.index() as int),
        area(*context).x == base_x(c0) + origin_x + (if it.index() == 0 { 0 } else { (it.index() - 1) % w + 1 }) * code_2d.point_width,
        area(*context).y == area(c0).y + (if it.index() == 0 { 0 } else { (it.index() - 1) / w }) * code_2d.point_height,
//@at begin 1
    proof {
        let k = it.index() as int;
        grid_step(k, w);
        let pw = code_2d.point_width as int;
        let ph = code_2d.point_height as int;
        let c = k % w;
        let r = k / w;
        assert((c + 1) * pw == c * pw + pw) by(nonlinear_arith);
        assert(0 <= c * pw && c * pw + pw <= w * pw) by(nonlinear_arith) requires 0 <= c < w, pw >= 0;
        assert(0 <= r * ph <= 0x10_0000 * 256) by(nonlinear_arith) requires 0 <= r <= 0x10_0000, 0 <= ph <= 256;
        assert(r * ph == (r - 1) * ph + ph) by(nonlinear_arith);
        assert(0 * pw == 0 && 0 * ph == 0);
    }
//@end
//@fn Renderer::process_image
//@sub self.log_debug_icon(...); => ();
//@spec
    requires room_below(old(self).context), small(old(image).w as int), small(old(image).h as int)
    ensures
        *final(self) == (Renderer { context: final(self).context, renderer: final(self).renderer, ..*old(self) }),
        calls(final(self).renderer) == calls(old(self).renderer).push(Call::Image(*final(image))),
        ({
            let c = old(self).context;
            let at = image_at(*old(image), c);
            &&& *final(image) == (Image { x: at.0 as u32, y: at.1 as u32, ..*old(image) })
            &&& final(self).context == match old(image).flow {
                ImageFlow::Inline => moved(c, at.0 + old(image).w, at.1),
                ImageFlow::Block => if c.page_mode.enabled { c } else { moved(c, base_x(c), at.1 + old(image).h) },
                ImageFlow::None => c,
            }
        }),
//@at begin
    proof { let c = self.context; assert(c == moved(c, area(c).x as int, area(c).y as int)); assert(c.text.line_spacing * 1 == c.text.line_spacing); }
//@end
}
}
fn main() {}
