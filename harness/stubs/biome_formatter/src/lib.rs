//! Stand-in for biome_formatter: comment attachment only (biome's algorithm).
pub mod comments {
    use biome_rowan::{AstNode, Direction, Language, SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken, SyntaxTriviaPieceComments, WalkEvent};
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum CommentKind {
        InlineBlock,
        Block,
        Line,
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum CommentTextPosition {
        EndOfLine,
        OwnLine,
        SameLine,
    }
    pub trait CommentStyle: Default {
        type Language: Language;
        fn is_suppression(_text: &str) -> bool {
            false
        }
        fn get_comment_kind(comment: &SyntaxTriviaPieceComments<Self::Language>) -> CommentKind;
        fn place_comment(&self, comment: DecoratedComment<Self::Language>) -> CommentPlacement<Self::Language> {
            CommentPlacement::Default(comment)
        }
    }
    #[derive(Clone, Debug)]
    pub struct SourceComment<L: Language> {
        pub(crate) lines_before: u32,
        pub(crate) lines_after: u32,
        pub(crate) piece: SyntaxTriviaPieceComments<L>,
        pub(crate) kind: CommentKind,
    }
    impl<L: Language> SourceComment<L> {
        pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> {
            &self.piece
        }
        pub fn lines_before(&self) -> u32 {
            self.lines_before
        }
        pub fn lines_after(&self) -> u32 {
            self.lines_after
        }
        pub fn kind(&self) -> CommentKind {
            self.kind
        }
    }
    #[derive(Clone, Debug)]
    pub struct DecoratedComment<L: Language> {
        enclosing: SyntaxNode<L>,
        preceding: Option<SyntaxNode<L>>,
        following: Option<SyntaxNode<L>>,
        following_token: Option<SyntaxToken<L>>,
        text_position: CommentTextPosition,
        lines_before: u32,
        lines_after: u32,
        comment: SyntaxTriviaPieceComments<L>,
        kind: CommentKind,
    }
    impl<L: Language> DecoratedComment<L> {
        pub fn enclosing_node(&self) -> &SyntaxNode<L> {
            &self.enclosing
        }
        pub fn preceding_node(&self) -> Option<&SyntaxNode<L>> {
            self.preceding.as_ref()
        }
        pub fn following_node(&self) -> Option<&SyntaxNode<L>> {
            self.following.as_ref()
        }
        pub fn following_token(&self) -> Option<&SyntaxToken<L>> {
            self.following_token.as_ref()
        }
        pub fn text_position(&self) -> CommentTextPosition {
            self.text_position
        }
        pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> {
            &self.comment
        }
        pub fn lines_before(&self) -> u32 {
            self.lines_before
        }
        pub fn lines_after(&self) -> u32 {
            self.lines_after
        }
        pub fn kind(&self) -> CommentKind {
            self.kind
        }
    }
    impl<L: Language> From<DecoratedComment<L>> for SourceComment<L> {
        fn from(d: DecoratedComment<L>) -> Self {
            SourceComment { lines_before: d.lines_before, lines_after: d.lines_after, piece: d.comment, kind: d.kind }
        }
    }
    pub enum CommentPlacement<L: Language> {
        Leading { node: SyntaxNode<L>, comment: SourceComment<L> },
        Trailing { node: SyntaxNode<L>, comment: SourceComment<L> },
        Dangling { node: SyntaxNode<L>, comment: SourceComment<L> },
        Default(DecoratedComment<L>),
    }
    impl<L: Language> CommentPlacement<L> {
        pub fn leading(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
            Self::Leading { node, comment: comment.into() }
        }
        pub fn trailing(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
            Self::Trailing { node, comment: comment.into() }
        }
        pub fn dangling(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
            Self::Dangling { node, comment: comment.into() }
        }
    }
    #[derive(Clone, Debug)]
    struct Part<L: Language> {
        node: SyntaxNode<L>,
        lists: [Vec<SourceComment<L>>; 3],
    }
    #[derive(Clone, Debug)]
    pub struct Comments<L: Language> {
        parts: Vec<Part<L>>,
    }
    impl<L: Language> Default for Comments<L> {
        fn default() -> Self {
            Comments { parts: Vec::new() }
        }
    }
    impl<L: Language> Comments<L> {
        pub fn from_node<S: CommentStyle<Language = L>>(root: &SyntaxNode<L>, style: &S, _map: Option<&()>) -> Self {
            let mut b = Builder { style, parents: Vec::new(), following: None, preceding: None, last: None, parts: Vec::new() };
            for e in root.preorder_with_tokens(Direction::Next) {
                match e {
                    WalkEvent::Enter(SyntaxElement::Node(n)) => b.enter(n),
                    WalkEvent::Leave(SyntaxElement::Node(n)) => b.leave(n),
                    WalkEvent::Enter(SyntaxElement::Token(t)) => b.token(t),
                    WalkEvent::Leave(SyntaxElement::Token(_)) => {}
                }
            }
            b.flush_last(root);
            Comments { parts: b.parts }
        }
        fn get(&self, n: &SyntaxNode<L>, i: usize) -> &[SourceComment<L>] {
            match self.parts.iter().find(|p| p.node == *n) {
                Some(p) => &p.lists[i],
                None => &[],
            }
        }
        pub fn leading_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] {
            self.get(n, 0)
        }
        pub fn dangling_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] {
            self.get(n, 1)
        }
        pub fn trailing_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] {
            self.get(n, 2)
        }
        pub fn has_comments(&self, n: &SyntaxNode<L>) -> bool {
            (0..3).any(|i| !self.get(n, i).is_empty())
        }
        pub fn has_leading_comments(&self, n: &SyntaxNode<L>) -> bool {
            !self.get(n, 0).is_empty()
        }
        pub fn has_trailing_comments(&self, n: &SyntaxNode<L>) -> bool {
            !self.get(n, 2).is_empty()
        }
        pub fn has_dangling_comments(&self, n: &SyntaxNode<L>) -> bool {
            !self.get(n, 1).is_empty()
        }
    }
    struct Builder<'a, L: Language, S> {
        style: &'a S,
        parents: Vec<SyntaxNode<L>>,
        following: Option<usize>,
        preceding: Option<SyntaxNode<L>>,
        last: Option<SyntaxToken<L>>,
        parts: Vec<Part<L>>,
    }
    impl<L: Language, S: CommentStyle<Language = L>> Builder<'_, L, S> {
        fn enter(&mut self, n: SyntaxNode<L>) {
            // Lists cannot have comments attached.
            if n.kind().is_list() {
                return;
            }
            // Associate comments with the outermost node.
            if self.following.is_none() || self.following == Some(0) {
                self.following = Some(self.parents.len());
            }
            self.parents.push(n);
        }
        fn leave(&mut self, n: SyntaxNode<L>) {
            if n.kind().is_list() {
                return;
            }
            self.parents.pop();
            // A node without tokens never is the following node.
            if self.following.is_some_and(|f| f >= self.parents.len()) {
                self.following = None;
            }
            self.preceding = Some(n);
        }
        fn enclosing(&self) -> SyntaxNode<L> {
            match self.following {
                None => self.parents.last().unwrap().clone(),
                Some(0) => self.parents[0].clone(),
                Some(i) => self.parents[i - 1].clone(),
            }
        }
        fn decorate(&self, piece: SyntaxTriviaPieceComments<L>, before: u32, pos: CommentTextPosition, token: Option<&SyntaxToken<L>>) -> DecoratedComment<L> {
            DecoratedComment {
                enclosing: self.enclosing(),
                preceding: self.preceding.clone(),
                following: self.following.map(|i| self.parents[i].clone()),
                following_token: token.cloned(),
                text_position: pos,
                lines_before: before,
                lines_after: 0,
                kind: S::get_comment_kind(&piece),
                comment: piece,
            }
        }
        fn token(&mut self, t: SyntaxToken<L>) {
            let mut pending: Vec<DecoratedComment<L>> = Vec::new();
            if let Some(last) = self.last.take() {
                for p in last.trailing_trivia().pieces() {
                    if let Some(c) = p.as_comments() {
                        pending.push(self.decorate(c, 0, CommentTextPosition::EndOfLine, Some(&t)));
                    }
                }
            }
            let mut lines = 0;
            for p in t.leading_trivia().pieces() {
                if p.is_newline() {
                    lines += 1;
                    if let Some(c) = pending.last_mut() {
                        c.lines_after += 1;
                    }
                } else if let Some(c) = p.as_comments() {
                    pending.push(self.decorate(c, lines, CommentTextPosition::OwnLine, Some(&t)));
                    lines = 0;
                }
            }
            for c in pending {
                self.place(c);
            }
            self.last = Some(t);
            // What comes next is preceded by this token and by no node.
            self.preceding = None;
            self.following = None;
        }
        fn flush_last(&mut self, root: &SyntaxNode<L>) {
            if let Some(last) = self.last.take() {
                self.parents.push(root.clone());
                for p in last.trailing_trivia().pieces() {
                    if let Some(c) = p.as_comments() {
                        let d = self.decorate(c, 0, CommentTextPosition::EndOfLine, None);
                        self.place(d);
                    }
                }
            }
        }
        fn push(&mut self, n: SyntaxNode<L>, i: usize, c: SourceComment<L>) {
            let at = match self.parts.iter().position(|p| p.node == n) {
                Some(at) => at,
                None => {
                    self.parts.push(Part { node: n, lists: [Vec::new(), Vec::new(), Vec::new()] });
                    self.parts.len() - 1
                }
            };
            self.parts[at].lists[i].push(c);
        }
        fn place(&mut self, c: DecoratedComment<L>) {
            match self.style.place_comment(c) {
                CommentPlacement::Leading { node, comment } => self.push(node, 0, comment),
                CommentPlacement::Dangling { node, comment } => self.push(node, 1, comment),
                CommentPlacement::Trailing { node, comment } => self.push(node, 2, comment),
                CommentPlacement::Default(c) => {
                    let (p, f, e) = (c.preceding.clone(), c.following.clone(), c.enclosing.clone());
                    let (n, i) = match c.text_position {
                        CommentTextPosition::OwnLine => match (p, f) {
                            (_, Some(f)) => (f, 0),
                            (Some(p), None) => (p, 2),
                            (None, None) => (e, 1),
                        },
                        _ => match (p, f) {
                            (Some(p), _) => (p, 2),
                            (None, Some(f)) => (f, 0),
                            (None, None) => (e, 1),
                        },
                    };
                    self.push(n, i, c.into());
                }
            }
        }
    }
    #[allow(unused)]
    fn _unused<N: AstNode>(_: N) {}
}
