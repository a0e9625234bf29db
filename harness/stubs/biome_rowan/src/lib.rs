//! Stand-in for biome_rowan: lossless syntax trees with the parts of the API
//! jarl uses, stored as one flat arena per tree.
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Range, Sub, SubAssign};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TextSize(u32);
impl TextSize {
    pub const fn new(v: u32) -> Self {
        TextSize(v)
    }
    pub fn of(s: &str) -> Self {
        TextSize(s.len() as u32)
    }
    pub fn checked_sub(self, o: TextSize) -> Option<TextSize> {
        self.0.checked_sub(o.0).map(TextSize)
    }
    pub fn checked_add(self, o: TextSize) -> Option<TextSize> {
        self.0.checked_add(o.0).map(TextSize)
    }
}
impl fmt::Debug for TextSize {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl From<u32> for TextSize {
    fn from(v: u32) -> Self {
        TextSize(v)
    }
}
impl From<TextSize> for u32 {
    fn from(v: TextSize) -> Self {
        v.0
    }
}
impl From<TextSize> for usize {
    fn from(v: TextSize) -> Self {
        v.0 as usize
    }
}
impl TryFrom<usize> for TextSize {
    type Error = std::num::TryFromIntError;
    fn try_from(v: usize) -> Result<Self, Self::Error> {
        Ok(TextSize(u32::try_from(v)?))
    }
}
impl Add for TextSize {
    type Output = TextSize;
    fn add(self, o: TextSize) -> TextSize {
        TextSize(self.0 + o.0)
    }
}
impl Sub for TextSize {
    type Output = TextSize;
    fn sub(self, o: TextSize) -> TextSize {
        TextSize(self.0 - o.0)
    }
}
impl AddAssign for TextSize {
    fn add_assign(&mut self, o: TextSize) {
        self.0 += o.0
    }
}
impl SubAssign for TextSize {
    fn sub_assign(&mut self, o: TextSize) {
        self.0 -= o.0
    }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TextRange {
    start: TextSize,
    end: TextSize,
}
impl serde::Serialize for TextRange {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (self.start.0, self.end.0).serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for TextRange {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (a, b) = <(u32, u32)>::deserialize(d)?;
        if a > b {
            return Err(serde::de::Error::custom("bad range"));
        }
        Ok(TextRange { start: TextSize(a), end: TextSize(b) })
    }
}
impl fmt::Debug for TextRange {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}..{}", self.start.0, self.end.0)
    }
}
impl TextRange {
    pub fn new(start: TextSize, end: TextSize) -> Self {
        assert!(start <= end);
        TextRange { start, end }
    }
    pub fn at(o: TextSize, len: TextSize) -> Self {
        TextRange { start: o, end: o + len }
    }
    pub fn empty(o: TextSize) -> Self {
        TextRange { start: o, end: o }
    }
    pub fn up_to(end: TextSize) -> Self {
        TextRange { start: TextSize(0), end }
    }
    pub fn start(self) -> TextSize {
        self.start
    }
    pub fn end(self) -> TextSize {
        self.end
    }
    pub fn len(self) -> TextSize {
        self.end - self.start
    }
    pub fn is_empty(self) -> bool {
        self.start == self.end
    }
    pub fn contains(self, o: TextSize) -> bool {
        self.start <= o && o < self.end
    }
    pub fn contains_inclusive(self, o: TextSize) -> bool {
        self.start <= o && o <= self.end
    }
    pub fn contains_range(self, o: TextRange) -> bool {
        self.start <= o.start && o.end <= self.end
    }
    pub fn cover(self, o: TextRange) -> TextRange {
        TextRange { start: self.start.min(o.start), end: self.end.max(o.end) }
    }
    pub fn intersect(self, o: TextRange) -> Option<TextRange> {
        let (s, e) = (self.start.max(o.start), self.end.min(o.end));
        if e < s { None } else { Some(TextRange { start: s, end: e }) }
    }
    pub fn cover_offset(self, o: TextSize) -> TextRange {
        self.cover(TextRange::empty(o))
    }
    pub fn checked_add(self, o: TextSize) -> Option<TextRange> {
        Some(TextRange { start: self.start.checked_add(o)?, end: self.end.checked_add(o)? })
    }
    pub fn checked_sub(self, o: TextSize) -> Option<TextRange> {
        Some(TextRange { start: self.start.checked_sub(o)?, end: self.end.checked_sub(o)? })
    }
    pub fn ordering(self, r: TextRange) -> std::cmp::Ordering {
        if self.end <= r.start {
            std::cmp::Ordering::Less
        } else if r.end <= self.start {
            std::cmp::Ordering::Greater
        } else {
            std::cmp::Ordering::Equal
        }
    }
}
impl From<TextRange> for Range<usize> {
    fn from(r: TextRange) -> Self {
        r.start.0 as usize..r.end.0 as usize
    }
}
impl std::ops::Index<TextRange> for str {
    type Output = str;
    fn index(&self, r: TextRange) -> &str {
        &self[Range::<usize>::from(r)]
    }
}
impl std::ops::Index<TextRange> for String {
    type Output = str;
    fn index(&self, r: TextRange) -> &str {
        &self[Range::<usize>::from(r)]
    }
}
impl AddAssign<TextSize> for TextRange {
    fn add_assign(&mut self, o: TextSize) {
        *self = *self + o
    }
}
impl SubAssign<TextSize> for TextRange {
    fn sub_assign(&mut self, o: TextSize) {
        *self = *self - o
    }
}
impl Add<TextSize> for TextRange {
    type Output = TextRange;
    fn add(self, o: TextSize) -> TextRange {
        TextRange { start: self.start + o, end: self.end + o }
    }
}
impl Sub<TextSize> for TextRange {
    type Output = TextRange;
    fn sub(self, o: TextSize) -> TextRange {
        TextRange { start: self.start - o, end: self.end - o }
    }
}

pub trait SyntaxKind: Copy + PartialEq + fmt::Debug {
    fn is_list(self) -> bool;
    fn to_raw(self) -> u16;
    fn from_raw(r: u16) -> Self;
}
pub trait Language: Sized + Clone + Copy + fmt::Debug + Eq + Ord + Hash + 'static {
    type Kind: SyntaxKind;
    type Root: AstNode<Language = Self>;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TriviaPieceKind {
    Newline,
    Whitespace,
    SingleLineComment,
    MultiLineComment,
    Skipped,
}
#[derive(Clone, Debug)]
struct Piece {
    kind: TriviaPieceKind,
    start: u32,
    end: u32,
}
#[derive(Clone, Copy, Debug)]
enum Slot {
    Empty,
    Node(u32),
    Token(u32),
}
#[derive(Debug)]
struct NodeData {
    kind: u16,
    parent: u32,
    index: u32,
    start: u32,
    end: u32,
    first: u32,
    last: u32,
    slots: Vec<Slot>,
}
#[derive(Debug)]
struct TokData {
    kind: u16,
    parent: u32,
    index: u32,
    start: u32,
    tstart: u32,
    tend: u32,
    end: u32,
    lead: Vec<Piece>,
    trail: Vec<Piece>,
}
#[derive(Debug)]
pub struct Tree {
    text: String,
    nodes: Vec<NodeData>,
    toks: Vec<TokData>,
}
const NONE: u32 = u32::MAX;

/// Builds a tree from the outside in, in text order.
pub struct TreeBuilder {
    t: Tree,
    stack: Vec<u32>,
    pos: u32,
}
#[derive(Clone, Copy)]
pub struct Checkpoint(usize);
impl TreeBuilder {
    pub fn new(text: &str) -> Self {
        TreeBuilder { t: Tree { text: text.to_string(), nodes: Vec::new(), toks: Vec::new() }, stack: Vec::new(), pos: 0 }
    }
    fn attach(&mut self, s: Slot) -> (u32, u32) {
        match self.stack.last() {
            Some(&p) => {
                let n = &mut self.t.nodes[p as usize];
                n.slots.push(s);
                (p, n.slots.len() as u32 - 1)
            }
            None => (NONE, 0),
        }
    }
    pub fn start_node(&mut self, kind: u16) {
        let id = self.t.nodes.len() as u32;
        let (parent, index) = self.attach(Slot::Node(id));
        self.t.nodes.push(NodeData { kind, parent, index, start: self.pos, end: self.pos, first: NONE, last: NONE, slots: Vec::new() });
        self.stack.push(id);
    }
    pub fn finish_node(&mut self) {
        let id = self.stack.pop().unwrap();
        let end = self.pos;
        self.t.nodes[id as usize].end = end;
    }
    pub fn empty(&mut self) {
        self.attach(Slot::Empty);
    }
    /// A token with its trivia: (kind, start, end) pieces around [tstart, tend).
    pub fn token(&mut self, kind: u16, lead: &[(TriviaPieceKind, u32, u32)], tstart: u32, tend: u32, trail: &[(TriviaPieceKind, u32, u32)]) {
        let id = self.t.toks.len() as u32;
        let (parent, index) = self.attach(Slot::Token(id));
        let start = lead.first().map_or(tstart, |p| p.1);
        let end = trail.last().map_or(tend, |p| p.2);
        let f = |v: &[(TriviaPieceKind, u32, u32)]| v.iter().map(|p| Piece { kind: p.0, start: p.1, end: p.2 }).collect();
        self.t.toks.push(TokData { kind, parent, index, start, tstart, tend, end, lead: f(lead), trail: f(trail) });
        for s in &self.stack {
            let n = &mut self.t.nodes[*s as usize];
            if n.first == NONE {
                n.first = id;
                n.start = start;
            }
            n.last = id;
        }
        self.pos = end;
    }
    pub fn finish<L: Language>(self) -> SyntaxNode<L> {
        SyntaxNode { t: Rc::new(self.t), id: 0, p: PhantomData }
    }
}

pub struct SyntaxNode<L: Language> {
    t: Rc<Tree>,
    id: u32,
    p: PhantomData<L>,
}
pub struct SyntaxToken<L: Language> {
    t: Rc<Tree>,
    id: u32,
    p: PhantomData<L>,
}
macro_rules! common {
    ($t:ident) => {
        impl<L: Language> Clone for $t<L> {
            fn clone(&self) -> Self {
                $t { t: self.t.clone(), id: self.id, p: PhantomData }
            }
        }
        impl<L: Language> PartialEq for $t<L> {
            fn eq(&self, o: &Self) -> bool {
                self.id == o.id && Rc::ptr_eq(&self.t, &o.t)
            }
        }
        impl<L: Language> Eq for $t<L> {}
        impl<L: Language> Hash for $t<L> {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.id.hash(h);
                (Rc::as_ptr(&self.t) as usize).hash(h);
            }
        }
    };
}
common!(SyntaxNode);
common!(SyntaxToken);
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum NodeOrToken<N, T> {
    Node(N),
    Token(T),
}
pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;
impl<L: Language> NodeOrToken<SyntaxNode<L>, SyntaxToken<L>> {
    pub fn kind(&self) -> L::Kind {
        match self {
            NodeOrToken::Node(n) => n.kind(),
            NodeOrToken::Token(t) => t.kind(),
        }
    }
    pub fn text_range(&self) -> TextRange {
        match self {
            NodeOrToken::Node(n) => n.text_range(),
            NodeOrToken::Token(t) => t.text_range(),
        }
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        match self {
            NodeOrToken::Node(n) => n.text_trimmed_range(),
            NodeOrToken::Token(t) => t.text_trimmed_range(),
        }
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        match self {
            NodeOrToken::Node(n) => n.parent(),
            NodeOrToken::Token(t) => t.parent(),
        }
    }
    pub fn as_node(&self) -> Option<&SyntaxNode<L>> {
        match self {
            NodeOrToken::Node(n) => Some(n),
            _ => None,
        }
    }
    pub fn as_token(&self) -> Option<&SyntaxToken<L>> {
        match self {
            NodeOrToken::Token(n) => Some(n),
            _ => None,
        }
    }
    pub fn into_node(self) -> Option<SyntaxNode<L>> {
        match self {
            NodeOrToken::Node(n) => Some(n),
            _ => None,
        }
    }
    pub fn into_token(self) -> Option<SyntaxToken<L>> {
        match self {
            NodeOrToken::Token(n) => Some(n),
            _ => None,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Direction {
    Next,
    Prev,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum WalkEvent<T> {
    Enter(T),
    Leave(T),
}
/// A slice of the text a tree was built from.
#[derive(Clone)]
pub struct TokenText {
    t: Rc<Tree>,
    start: u32,
    end: u32,
}
pub type SyntaxNodeText = TokenText;
pub type Text = TokenText;
impl TokenText {
    pub fn text(&self) -> &str {
        &self.t.text[self.start as usize..self.end as usize]
    }
    pub fn len(&self) -> TextSize {
        TextSize(self.end - self.start)
    }
    pub fn is_empty(&self) -> bool {
        self.start == self.end
    }
    pub fn contains_char(&self, c: char) -> bool {
        self.text().contains(c)
    }
}
impl std::ops::Deref for TokenText {
    type Target = str;
    fn deref(&self) -> &str {
        self.text()
    }
}
impl AsRef<str> for TokenText {
    fn as_ref(&self) -> &str {
        self.text()
    }
}
impl std::borrow::Borrow<str> for TokenText {
    fn borrow(&self) -> &str {
        self.text()
    }
}
impl fmt::Display for TokenText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}
impl fmt::Debug for TokenText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self.text(), f)
    }
}
impl PartialEq for TokenText {
    fn eq(&self, o: &Self) -> bool {
        self.text() == o.text()
    }
}
impl Eq for TokenText {}
impl Hash for TokenText {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.text().hash(h)
    }
}
impl PartialEq<str> for TokenText {
    fn eq(&self, o: &str) -> bool {
        self.text() == o
    }
}
impl PartialEq<&str> for TokenText {
    fn eq(&self, o: &&str) -> bool {
        self.text() == *o
    }
}
impl PartialEq<String> for TokenText {
    fn eq(&self, o: &String) -> bool {
        self.text() == o
    }
}
impl PartialEq<TokenText> for str {
    fn eq(&self, o: &TokenText) -> bool {
        self == o.text()
    }
}
impl PartialEq<TokenText> for &str {
    fn eq(&self, o: &TokenText) -> bool {
        *self == o.text()
    }
}
impl From<TokenText> for String {
    fn from(t: TokenText) -> String {
        t.text().to_string()
    }
}

impl<L: Language> SyntaxNode<L> {
    fn d(&self) -> &NodeData {
        &self.t.nodes[self.id as usize]
    }
    fn with(&self, id: u32) -> Self {
        SyntaxNode { t: self.t.clone(), id, p: PhantomData }
    }
    fn tok(&self, id: u32) -> SyntaxToken<L> {
        SyntaxToken { t: self.t.clone(), id, p: PhantomData }
    }
    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(self.d().kind)
    }
    pub fn index(&self) -> usize {
        self.d().index as usize
    }
    pub fn text_range(&self) -> TextRange {
        TextRange { start: TextSize(self.d().start), end: TextSize(self.d().end) }
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        self.text_range()
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        let d = self.d();
        if d.first == NONE {
            return self.text_range();
        }
        TextRange { start: TextSize(self.t.toks[d.first as usize].tstart), end: TextSize(self.t.toks[d.last as usize].tend) }
    }
    fn slice(&self, r: TextRange) -> TokenText {
        TokenText { t: self.t.clone(), start: r.start.0, end: r.end.0 }
    }
    pub fn text_trimmed(&self) -> SyntaxNodeText {
        self.slice(self.text_trimmed_range())
    }
    pub fn text_with_trivia(&self) -> SyntaxNodeText {
        self.slice(self.text_range())
    }
    pub fn text(&self) -> SyntaxNodeText {
        self.slice(self.text_range())
    }
    pub fn parent(&self) -> Option<Self> {
        let p = self.d().parent;
        if p == NONE { None } else { Some(self.with(p)) }
    }
    pub fn ancestors(&self) -> impl Iterator<Item = Self> {
        std::iter::successors(Some(self.clone()), |n| n.parent())
    }
    pub fn grand_parent(&self) -> Option<Self> {
        self.parent()?.parent()
    }
    fn el(&self, s: Slot) -> Option<SyntaxElement<L>> {
        match s {
            Slot::Empty => None,
            Slot::Node(i) => Some(NodeOrToken::Node(self.with(i))),
            Slot::Token(i) => Some(NodeOrToken::Token(self.tok(i))),
        }
    }
    pub fn slot(&self, i: usize) -> Option<SyntaxElement<L>> {
        self.d().slots.get(i).and_then(|s| self.el(*s))
    }
    pub fn slot_count(&self) -> usize {
        self.d().slots.len()
    }
    pub fn children(&self) -> std::vec::IntoIter<Self> {
        let v: Vec<Self> = self.d().slots.iter().filter_map(|s| if let Slot::Node(i) = s { Some(self.with(*i)) } else { None }).collect();
        v.into_iter()
    }
    pub fn children_with_tokens(&self) -> std::vec::IntoIter<SyntaxElement<L>> {
        let v: Vec<_> = self.d().slots.iter().filter_map(|s| self.el(*s)).collect();
        v.into_iter()
    }
    pub fn tokens(&self) -> std::vec::IntoIter<SyntaxToken<L>> {
        let v: Vec<_> = self.children_with_tokens().filter_map(|e| e.into_token()).collect();
        v.into_iter()
    }
    pub fn first_child(&self) -> Option<Self> {
        self.children().next()
    }
    pub fn last_child(&self) -> Option<Self> {
        self.children().last()
    }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().next()
    }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().last()
    }
    fn sibling(&self, next: bool) -> Option<SyntaxElement<L>> {
        sibling(self.parent()?, self.index(), next)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.sibling(true)
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.sibling(false)
    }
    pub fn next_sibling(&self) -> Option<Self> {
        let p = self.parent()?;
        let v = p.children().find(|n| n.index() > self.index());
        v
    }
    pub fn prev_sibling(&self) -> Option<Self> {
        let p = self.parent()?;
        let v = p.children().filter(|n| n.index() < self.index()).last();
        v
    }
    pub fn siblings(&self, d: Direction) -> std::vec::IntoIter<Self> {
        let mut v = vec![self.clone()];
        while let Some(n) = if d == Direction::Next { v.last().unwrap().next_sibling() } else { v.last().unwrap().prev_sibling() } {
            v.push(n);
        }
        v.into_iter()
    }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> {
        let f = self.d().first;
        if f == NONE { None } else { Some(self.tok(f)) }
    }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        let f = self.d().last;
        if f == NONE { None } else { Some(self.tok(f)) }
    }
    pub fn preorder_with_tokens(&self, _d: Direction) -> std::vec::IntoIter<WalkEvent<SyntaxElement<L>>> {
        fn go<L: Language>(n: &SyntaxNode<L>, out: &mut Vec<WalkEvent<SyntaxElement<L>>>) {
            out.push(WalkEvent::Enter(NodeOrToken::Node(n.clone())));
            for c in n.children_with_tokens() {
                match c {
                    NodeOrToken::Node(c) => go(&c, out),
                    t => {
                        out.push(WalkEvent::Enter(t.clone()));
                        out.push(WalkEvent::Leave(t));
                    }
                }
            }
            out.push(WalkEvent::Leave(NodeOrToken::Node(n.clone())));
        }
        let mut out = Vec::new();
        go(self, &mut out);
        out.into_iter()
    }
    pub fn preorder(&self) -> std::vec::IntoIter<WalkEvent<Self>> {
        let v: Vec<_> = self
            .preorder_with_tokens(Direction::Next)
            .filter_map(|e| match e {
                WalkEvent::Enter(NodeOrToken::Node(n)) => Some(WalkEvent::Enter(n)),
                WalkEvent::Leave(NodeOrToken::Node(n)) => Some(WalkEvent::Leave(n)),
                _ => None,
            })
            .collect();
        v.into_iter()
    }
    /// This node and everything below it.
    pub fn descendants(&self) -> std::vec::IntoIter<Self> {
        fn go<L: Language>(n: &SyntaxNode<L>, out: &mut Vec<SyntaxNode<L>>) {
            out.push(n.clone());
            for s in &n.d().slots {
                if let Slot::Node(i) = s {
                    go(&n.with(*i), out);
                }
            }
        }
        let mut out = Vec::new();
        go(self, &mut out);
        out.into_iter()
    }
    pub fn descendants_tokens(&self, d: Direction) -> std::vec::IntoIter<SyntaxToken<L>> {
        let n = self.d();
        let mut v: Vec<_> = if n.first == NONE { vec![] } else { (n.first..=n.last).map(|i| self.tok(i)).collect() };
        if d == Direction::Prev {
            v.reverse();
        }
        v.into_iter()
    }
    pub fn descendants_with_tokens(&self, d: Direction) -> std::vec::IntoIter<SyntaxElement<L>> {
        let v: Vec<_> = self.preorder_with_tokens(d).filter_map(|e| if let WalkEvent::Enter(x) = e { Some(x) } else { None }).collect();
        v.into_iter()
    }
    pub fn covering_element(&self, range: TextRange) -> SyntaxElement<L> {
        let mut res: SyntaxElement<L> = NodeOrToken::Node(self.clone());
        loop {
            assert!(res.text_range().contains_range(range), "Bad range");
            let n = match &res {
                NodeOrToken::Token(_) => return res,
                NodeOrToken::Node(n) => n.clone(),
            };
            match n.children_with_tokens().find(|c| c.text_range().contains_range(range)) {
                Some(c) => res = c,
                None => return res,
            }
        }
    }
    pub fn first_leading_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.first_token().map(|t| t.leading_trivia())
    }
    pub fn last_trailing_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.last_token().map(|t| t.trailing_trivia())
    }
    pub fn has_leading_comments(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_leading_comments())
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.last_token().is_some_and(|t| t.has_trailing_comments())
    }
    /// Comments around the direct tokens of this node.
    pub fn has_comments_direct(&self) -> bool {
        self.tokens().any(|t| t.has_leading_comments() || t.has_trailing_comments())
    }
    /// Comments anywhere below this node, the outermost trivia included.
    pub fn has_comments_descendants(&self) -> bool {
        self.descendants_tokens(Direction::Next).any(|t| t.has_leading_comments() || t.has_trailing_comments())
    }
    pub fn first_or_last_token_have_comments(&self) -> bool {
        self.has_leading_comments() || self.has_trailing_comments()
    }
    pub fn detach(self) -> Self {
        self
    }
}
fn sibling<L: Language>(p: SyntaxNode<L>, index: usize, next: bool) -> Option<SyntaxElement<L>> {
    let mut i = index;
    loop {
        i = if next { i + 1 } else { i.checked_sub(1)? };
        if i >= p.slot_count() {
            return None;
        }
        if let Some(e) = p.slot(i) {
            return Some(e);
        }
    }
}
impl<L: Language> fmt::Display for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let d = self.d();
        f.write_str(&self.t.text[d.start as usize..d.end as usize])
    }
}
impl<L: Language> fmt::Debug for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            let mut depth = 0;
            for e in self.preorder_with_tokens(Direction::Next) {
                match e {
                    WalkEvent::Enter(x) => {
                        for _ in 0..depth {
                            f.write_str("  ")?;
                        }
                        match x {
                            NodeOrToken::Node(n) => writeln!(f, "{:?}@{:?}", n.kind(), n.text_range())?,
                            NodeOrToken::Token(t) => writeln!(f, "{t:?}")?,
                        }
                        depth += 1;
                    }
                    WalkEvent::Leave(_) => depth -= 1,
                }
            }
            Ok(())
        } else {
            write!(f, "{:?}@{:?}", self.kind(), self.text_range())
        }
    }
}
impl<L: Language> SyntaxToken<L> {
    fn d(&self) -> &TokData {
        &self.t.toks[self.id as usize]
    }
    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(self.d().kind)
    }
    pub fn index(&self) -> usize {
        self.d().index as usize
    }
    pub fn text_range(&self) -> TextRange {
        TextRange { start: TextSize(self.d().start), end: TextSize(self.d().end) }
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        TextRange { start: TextSize(self.d().tstart), end: TextSize(self.d().tend) }
    }
    pub fn text(&self) -> &str {
        &self.t.text[self.d().start as usize..self.d().end as usize]
    }
    pub fn text_trimmed(&self) -> &str {
        &self.t.text[self.d().tstart as usize..self.d().tend as usize]
    }
    pub fn token_text(&self) -> TokenText {
        TokenText { t: self.t.clone(), start: self.d().start, end: self.d().end }
    }
    pub fn token_text_trimmed(&self) -> TokenText {
        TokenText { t: self.t.clone(), start: self.d().tstart, end: self.d().tend }
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        Some(SyntaxNode { t: self.t.clone(), id: self.d().parent, p: PhantomData })
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> {
        std::iter::successors(self.parent(), |n| n.parent())
    }
    pub fn next_token(&self) -> Option<Self> {
        if self.id as usize + 1 < self.t.toks.len() { Some(SyntaxToken { t: self.t.clone(), id: self.id + 1, p: PhantomData }) } else { None }
    }
    pub fn prev_token(&self) -> Option<Self> {
        if self.id > 0 { Some(SyntaxToken { t: self.t.clone(), id: self.id - 1, p: PhantomData }) } else { None }
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        sibling(self.parent()?, self.index(), true)
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        sibling(self.parent()?, self.index(), false)
    }
    pub fn leading_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia { tok: self.clone(), lead: true }
    }
    pub fn trailing_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia { tok: self.clone(), lead: false }
    }
    pub fn has_leading_comments(&self) -> bool {
        self.d().lead.iter().any(|p| matches!(p.kind, TriviaPieceKind::SingleLineComment))
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.d().trail.iter().any(|p| matches!(p.kind, TriviaPieceKind::SingleLineComment))
    }
    pub fn has_leading_newline(&self) -> bool {
        self.d().lead.iter().any(|p| matches!(p.kind, TriviaPieceKind::Newline))
    }
}
impl<L: Language> fmt::Display for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}
impl<L: Language> fmt::Debug for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}@{:?} {:?}", self.kind(), self.text_range(), self.text_trimmed())
    }
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTrivia<L: Language> {
    tok: SyntaxToken<L>,
    lead: bool,
}
impl<L: Language> SyntaxTrivia<L> {
    fn v(&self) -> &[Piece] {
        if self.lead { &self.tok.d().lead } else { &self.tok.d().trail }
    }
    pub fn pieces(&self) -> std::vec::IntoIter<SyntaxTriviaPiece<L>> {
        let v: Vec<_> = (0..self.v().len()).map(|i| SyntaxTriviaPiece { tok: self.tok.clone(), lead: self.lead, i }).collect();
        v.into_iter()
    }
    pub fn is_empty(&self) -> bool {
        self.v().is_empty()
    }
    pub fn has_skipped(&self) -> bool {
        false
    }
    pub fn text(&self) -> &str {
        let d = self.tok.d();
        let (a, b) = if self.lead { (d.start, d.tstart) } else { (d.tend, d.end) };
        &self.tok.t.text[a as usize..b as usize]
    }
    pub fn text_range(&self) -> TextRange {
        let d = self.tok.d();
        let (a, b) = if self.lead { (d.start, d.tstart) } else { (d.tend, d.end) };
        TextRange { start: TextSize(a), end: TextSize(b) }
    }
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTriviaPiece<L: Language> {
    tok: SyntaxToken<L>,
    lead: bool,
    i: usize,
}
impl<L: Language> SyntaxTriviaPiece<L> {
    fn p(&self) -> &Piece {
        let d = self.tok.d();
        if self.lead { &d.lead[self.i] } else { &d.trail[self.i] }
    }
    pub fn kind(&self) -> TriviaPieceKind {
        self.p().kind
    }
    pub fn text(&self) -> &str {
        &self.tok.t.text[self.p().start as usize..self.p().end as usize]
    }
    pub fn text_range(&self) -> TextRange {
        TextRange { start: TextSize(self.p().start), end: TextSize(self.p().end) }
    }
    pub fn text_len(&self) -> TextSize {
        self.text_range().len()
    }
    pub fn is_newline(&self) -> bool {
        self.p().kind == TriviaPieceKind::Newline
    }
    pub fn is_whitespace(&self) -> bool {
        self.p().kind == TriviaPieceKind::Whitespace
    }
    pub fn is_comments(&self) -> bool {
        matches!(self.p().kind, TriviaPieceKind::SingleLineComment | TriviaPieceKind::MultiLineComment)
    }
    pub fn is_skipped(&self) -> bool {
        self.p().kind == TriviaPieceKind::Skipped
    }
    pub fn as_comments(&self) -> Option<SyntaxTriviaPieceComments<L>> {
        if self.is_comments() { Some(SyntaxTriviaPieceComments(self.clone())) } else { None }
    }
    pub fn token(&self) -> SyntaxToken<L> {
        self.tok.clone()
    }
}
impl<L: Language> fmt::Debug for SyntaxTriviaPiece<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}({:?})", self.p().kind, self.text())
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct SyntaxTriviaPieceComments<L: Language>(SyntaxTriviaPiece<L>);
impl<L: Language> SyntaxTriviaPieceComments<L> {
    pub fn text(&self) -> &str {
        self.0.text()
    }
    pub fn text_len(&self) -> TextSize {
        self.0.text_len()
    }
    pub fn text_range(&self) -> TextRange {
        self.0.text_range()
    }
    pub fn has_newline(&self) -> bool {
        false
    }
    pub fn as_piece(&self) -> &SyntaxTriviaPiece<L> {
        &self.0
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum SyntaxError {
    MissingRequiredChild,
    UnexpectedBogusNode,
}
impl fmt::Display for SyntaxError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("missing required child")
    }
}
impl std::error::Error for SyntaxError {}
pub type SyntaxResult<T> = Result<T, SyntaxError>;

pub trait AstNode: Clone {
    type Language: Language;
    fn can_cast(kind: <Self::Language as Language>::Kind) -> bool;
    fn cast(syntax: SyntaxNode<Self::Language>) -> Option<Self>;
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax(self) -> SyntaxNode<Self::Language>;
    fn cast_ref(syntax: &SyntaxNode<Self::Language>) -> Option<Self> {
        Self::cast(syntax.clone())
    }
    fn try_cast(syntax: SyntaxNode<Self::Language>) -> Result<Self, SyntaxNode<Self::Language>> {
        if Self::can_cast(syntax.kind()) { Ok(Self::cast(syntax).unwrap()) } else { Err(syntax) }
    }
    fn unwrap_cast(syntax: SyntaxNode<Self::Language>) -> Self {
        Self::cast(syntax).unwrap()
    }
    fn to_trimmed_text(&self) -> TokenText {
        self.syntax().text_trimmed()
    }
    fn to_trimmed_string(&self) -> String {
        self.syntax().text_trimmed().to_string()
    }
    fn text(&self) -> String {
        self.syntax().text_trimmed().to_string()
    }
    fn range(&self) -> TextRange {
        self.syntax().text_trimmed_range()
    }
    fn parent<T: AstNode<Language = Self::Language>>(&self) -> Option<T> {
        self.syntax().parent().and_then(T::cast)
    }
}
pub trait AstNodeList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax_list(self) -> SyntaxNode<Self::Language>;
    fn iter(&self) -> std::vec::IntoIter<Self::Node> {
        let v: Vec<_> = self.syntax_list().children().map(|n| Self::Node::cast(n).unwrap()).collect();
        v.into_iter()
    }
    fn len(&self) -> usize {
        self.iter().len()
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn first(&self) -> Option<Self::Node> {
        self.iter().next()
    }
    fn last(&self) -> Option<Self::Node> {
        self.iter().last()
    }
}
#[derive(Clone, Debug)]
pub struct AstSeparatedElement<L: Language, N> {
    pub node: SyntaxResult<N>,
    pub trailing_separator: SyntaxResult<Option<SyntaxToken<L>>>,
}
impl<L: Language, N> AstSeparatedElement<L, N> {
    pub fn node(&self) -> SyntaxResult<&N> {
        self.node.as_ref().map_err(|e| *e)
    }
    pub fn into_node(self) -> SyntaxResult<N> {
        self.node
    }
    pub fn trailing_separator(&self) -> SyntaxResult<Option<&SyntaxToken<L>>> {
        self.trailing_separator.as_ref().map(|o| o.as_ref()).map_err(|e| *e)
    }
}
pub trait AstSeparatedList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax_list(self) -> SyntaxNode<Self::Language>;
    fn iter(&self) -> std::vec::IntoIter<SyntaxResult<Self::Node>> {
        let v: Vec<_> = self.syntax_list().children().map(|n| Ok(Self::Node::cast(n).unwrap())).collect();
        v.into_iter()
    }
    fn len(&self) -> usize {
        self.iter().len()
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn first(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().next()
    }
    fn last(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().last()
    }
    fn elements(&self) -> std::vec::IntoIter<AstSeparatedElement<Self::Language, Self::Node>> {
        let mut seps = self.separators();
        let v: Vec<_> = self.iter().map(|node| AstSeparatedElement { node, trailing_separator: seps.next().transpose() }).collect();
        v.into_iter()
    }
    fn separators(&self) -> std::vec::IntoIter<SyntaxResult<SyntaxToken<Self::Language>>> {
        let v: Vec<_> = self.syntax_list().tokens().map(Ok).collect();
        v.into_iter()
    }
}
pub mod support {
    use super::*;
    pub fn node<L: Language, N: AstNode<Language = L>>(n: &SyntaxNode<L>, i: usize) -> Option<N> {
        n.slot(i).and_then(|e| e.into_node()).and_then(N::cast)
    }
    pub fn required_node<L: Language, N: AstNode<Language = L>>(n: &SyntaxNode<L>, i: usize) -> SyntaxResult<N> {
        node(n, i).ok_or(SyntaxError::MissingRequiredChild)
    }
    pub fn list<L: Language, N: AstNode<Language = L>>(n: &SyntaxNode<L>, i: usize) -> N {
        node(n, i).unwrap()
    }
    pub fn token<L: Language>(n: &SyntaxNode<L>, i: usize) -> Option<SyntaxToken<L>> {
        n.slot(i).and_then(|e| e.into_token())
    }
    pub fn required_token<L: Language>(n: &SyntaxNode<L>, i: usize) -> SyntaxResult<SyntaxToken<L>> {
        token(n, i).ok_or(SyntaxError::MissingRequiredChild)
    }
}
