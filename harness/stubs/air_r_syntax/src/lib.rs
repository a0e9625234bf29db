//! Generated by tools/gen_syntax.py: stand-in for air_r_syntax.
#![allow(non_camel_case_types, clippy::all)]
pub use biome_rowan::{TextRange, TextSize, TriviaPieceKind, AstNode, AstNodeList, AstSeparatedList, SyntaxResult};
use biome_rowan::{support, Language};
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct RLanguage;
pub type RSyntaxNode = biome_rowan::SyntaxNode<RLanguage>;
pub type RSyntaxToken = biome_rowan::SyntaxToken<RLanguage>;
pub type RSyntaxElement = biome_rowan::SyntaxElement<RLanguage>;
pub type RSyntaxTrivia = biome_rowan::SyntaxTrivia<RLanguage>;
impl Language for RLanguage {
    type Kind = RSyntaxKind;
    type Root = RRoot;
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(u16)]
pub enum RSyntaxKind {
    EOF,
    UNICODE_BOM,
    SEMICOLON,
    COMMA,
    L_CURLY,
    R_CURLY,
    L_PAREN,
    R_PAREN,
    L_BRACK,
    R_BRACK,
    L_BRACK2,
    R_BRACK2,
    WAT,
    TILDE,
    ASSIGN,
    SUPER_ASSIGN,
    WALRUS,
    ASSIGN_RIGHT,
    SUPER_ASSIGN_RIGHT,
    EQUAL,
    OR,
    OR2,
    AND,
    AND2,
    BANG,
    GREATER_THAN,
    GREATER_THAN_OR_EQUAL_TO,
    LESS_THAN,
    LESS_THAN_OR_EQUAL_TO,
    EQUAL2,
    NOT_EQUAL,
    PLUS,
    MINUS,
    MULTIPLY,
    DIVIDE,
    EXPONENTIATE,
    EXPONENTIATE2,
    PIPE,
    SPECIAL,
    COLON,
    COLON2,
    COLON3,
    DOLLAR,
    AT,
    BACKSLASH,
    FUNCTION_KW,
    FOR_KW,
    IN_KW,
    WHILE_KW,
    REPEAT_KW,
    IF_KW,
    ELSE_KW,
    RETURN_KW,
    NEXT_KW,
    BREAK_KW,
    TRUE_KW,
    FALSE_KW,
    NULL_KW,
    INF_KW,
    NAN_KW,
    NA_LOGICAL_KW,
    NA_INTEGER_KW,
    NA_DOUBLE_KW,
    NA_COMPLEX_KW,
    NA_CHARACTER_KW,
    DOTS,
    DOTDOTI,
    IDENT,
    R_INTEGER_LITERAL,
    R_DOUBLE_LITERAL,
    R_COMPLEX_LITERAL,
    R_STRING_LITERAL,
    NEWLINE,
    WHITESPACE,
    COMMENT,
    TOMBSTONE,
    R_ROOT,
    R_FUNCTION_DEFINITION,
    R_PARAMETERS,
    R_PARAMETER,
    R_PARAMETER_DEFAULT,
    R_IF_STATEMENT,
    R_ELSE_CLAUSE,
    R_FOR_STATEMENT,
    R_WHILE_STATEMENT,
    R_REPEAT_STATEMENT,
    R_BRACED_EXPRESSIONS,
    R_PARENTHESIZED_EXPRESSION,
    R_CALL,
    R_CALL_ARGUMENTS,
    R_SUBSET,
    R_SUBSET_ARGUMENTS,
    R_SUBSET2,
    R_SUBSET2_ARGUMENTS,
    R_ARGUMENT,
    R_ARGUMENT_NAME_CLAUSE,
    R_UNARY_EXPRESSION,
    R_BINARY_EXPRESSION,
    R_EXTRACT_EXPRESSION,
    R_NAMESPACE_EXPRESSION,
    R_IDENTIFIER,
    R_DOTS,
    R_DOT_DOT_I,
    R_RETURN_EXPRESSION,
    R_NEXT_EXPRESSION,
    R_BREAK_EXPRESSION,
    R_TRUE_EXPRESSION,
    R_FALSE_EXPRESSION,
    R_NULL_EXPRESSION,
    R_INF_EXPRESSION,
    R_NAN_EXPRESSION,
    R_NA_EXPRESSION,
    R_INTEGER_VALUE,
    R_DOUBLE_VALUE,
    R_COMPLEX_VALUE,
    R_STRING_VALUE,
    R_BOGUS,
    R_BOGUS_VALUE,
    R_BOGUS_EXPRESSION,
    R_EXPRESSION_LIST,
    R_PARAMETER_LIST,
    R_ARGUMENT_LIST,
}
const KINDS: [RSyntaxKind; 122] = [RSyntaxKind::EOF, RSyntaxKind::UNICODE_BOM, RSyntaxKind::SEMICOLON, RSyntaxKind::COMMA, RSyntaxKind::L_CURLY, RSyntaxKind::R_CURLY, RSyntaxKind::L_PAREN, RSyntaxKind::R_PAREN, RSyntaxKind::L_BRACK, RSyntaxKind::R_BRACK, RSyntaxKind::L_BRACK2, RSyntaxKind::R_BRACK2, RSyntaxKind::WAT, RSyntaxKind::TILDE, RSyntaxKind::ASSIGN, RSyntaxKind::SUPER_ASSIGN, RSyntaxKind::WALRUS, RSyntaxKind::ASSIGN_RIGHT, RSyntaxKind::SUPER_ASSIGN_RIGHT, RSyntaxKind::EQUAL, RSyntaxKind::OR, RSyntaxKind::OR2, RSyntaxKind::AND, RSyntaxKind::AND2, RSyntaxKind::BANG, RSyntaxKind::GREATER_THAN, RSyntaxKind::GREATER_THAN_OR_EQUAL_TO, RSyntaxKind::LESS_THAN, RSyntaxKind::LESS_THAN_OR_EQUAL_TO, RSyntaxKind::EQUAL2, RSyntaxKind::NOT_EQUAL, RSyntaxKind::PLUS, RSyntaxKind::MINUS, RSyntaxKind::MULTIPLY, RSyntaxKind::DIVIDE, RSyntaxKind::EXPONENTIATE, RSyntaxKind::EXPONENTIATE2, RSyntaxKind::PIPE, RSyntaxKind::SPECIAL, RSyntaxKind::COLON, RSyntaxKind::COLON2, RSyntaxKind::COLON3, RSyntaxKind::DOLLAR, RSyntaxKind::AT, RSyntaxKind::BACKSLASH, RSyntaxKind::FUNCTION_KW, RSyntaxKind::FOR_KW, RSyntaxKind::IN_KW, RSyntaxKind::WHILE_KW, RSyntaxKind::REPEAT_KW, RSyntaxKind::IF_KW, RSyntaxKind::ELSE_KW, RSyntaxKind::RETURN_KW, RSyntaxKind::NEXT_KW, RSyntaxKind::BREAK_KW, RSyntaxKind::TRUE_KW, RSyntaxKind::FALSE_KW, RSyntaxKind::NULL_KW, RSyntaxKind::INF_KW, RSyntaxKind::NAN_KW, RSyntaxKind::NA_LOGICAL_KW, RSyntaxKind::NA_INTEGER_KW, RSyntaxKind::NA_DOUBLE_KW, RSyntaxKind::NA_COMPLEX_KW, RSyntaxKind::NA_CHARACTER_KW, RSyntaxKind::DOTS, RSyntaxKind::DOTDOTI, RSyntaxKind::IDENT, RSyntaxKind::R_INTEGER_LITERAL, RSyntaxKind::R_DOUBLE_LITERAL, RSyntaxKind::R_COMPLEX_LITERAL, RSyntaxKind::R_STRING_LITERAL, RSyntaxKind::NEWLINE, RSyntaxKind::WHITESPACE, RSyntaxKind::COMMENT, RSyntaxKind::TOMBSTONE, RSyntaxKind::R_ROOT, RSyntaxKind::R_FUNCTION_DEFINITION, RSyntaxKind::R_PARAMETERS, RSyntaxKind::R_PARAMETER, RSyntaxKind::R_PARAMETER_DEFAULT, RSyntaxKind::R_IF_STATEMENT, RSyntaxKind::R_ELSE_CLAUSE, RSyntaxKind::R_FOR_STATEMENT, RSyntaxKind::R_WHILE_STATEMENT, RSyntaxKind::R_REPEAT_STATEMENT, RSyntaxKind::R_BRACED_EXPRESSIONS, RSyntaxKind::R_PARENTHESIZED_EXPRESSION, RSyntaxKind::R_CALL, RSyntaxKind::R_CALL_ARGUMENTS, RSyntaxKind::R_SUBSET, RSyntaxKind::R_SUBSET_ARGUMENTS, RSyntaxKind::R_SUBSET2, RSyntaxKind::R_SUBSET2_ARGUMENTS, RSyntaxKind::R_ARGUMENT, RSyntaxKind::R_ARGUMENT_NAME_CLAUSE, RSyntaxKind::R_UNARY_EXPRESSION, RSyntaxKind::R_BINARY_EXPRESSION, RSyntaxKind::R_EXTRACT_EXPRESSION, RSyntaxKind::R_NAMESPACE_EXPRESSION, RSyntaxKind::R_IDENTIFIER, RSyntaxKind::R_DOTS, RSyntaxKind::R_DOT_DOT_I, RSyntaxKind::R_RETURN_EXPRESSION, RSyntaxKind::R_NEXT_EXPRESSION, RSyntaxKind::R_BREAK_EXPRESSION, RSyntaxKind::R_TRUE_EXPRESSION, RSyntaxKind::R_FALSE_EXPRESSION, RSyntaxKind::R_NULL_EXPRESSION, RSyntaxKind::R_INF_EXPRESSION, RSyntaxKind::R_NAN_EXPRESSION, RSyntaxKind::R_NA_EXPRESSION, RSyntaxKind::R_INTEGER_VALUE, RSyntaxKind::R_DOUBLE_VALUE, RSyntaxKind::R_COMPLEX_VALUE, RSyntaxKind::R_STRING_VALUE, RSyntaxKind::R_BOGUS, RSyntaxKind::R_BOGUS_VALUE, RSyntaxKind::R_BOGUS_EXPRESSION, RSyntaxKind::R_EXPRESSION_LIST, RSyntaxKind::R_PARAMETER_LIST, RSyntaxKind::R_ARGUMENT_LIST];
impl biome_rowan::SyntaxKind for RSyntaxKind {
    fn is_list(self) -> bool {
        matches!(self, RSyntaxKind::R_EXPRESSION_LIST | RSyntaxKind::R_PARAMETER_LIST | RSyntaxKind::R_ARGUMENT_LIST)
    }
    fn to_raw(self) -> u16 {
        self as u16
    }
    fn from_raw(r: u16) -> Self {
        KINDS[r as usize]
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RRoot {
    syntax: RSyntaxNode,
}
impl AstNode for RRoot {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_ROOT
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_ROOT { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RRoot> for RSyntaxNode {
    fn from(n: RRoot) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RRoot {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RFunctionDefinition {
    syntax: RSyntaxNode,
}
impl AstNode for RFunctionDefinition {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_FUNCTION_DEFINITION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_FUNCTION_DEFINITION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RFunctionDefinition> for RSyntaxNode {
    fn from(n: RFunctionDefinition) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RFunctionDefinition {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RParameters {
    syntax: RSyntaxNode,
}
impl AstNode for RParameters {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_PARAMETERS
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_PARAMETERS { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RParameters> for RSyntaxNode {
    fn from(n: RParameters) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RParameters {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RParameter {
    syntax: RSyntaxNode,
}
impl AstNode for RParameter {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_PARAMETER
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_PARAMETER { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RParameter> for RSyntaxNode {
    fn from(n: RParameter) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RParameter {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RParameterDefault {
    syntax: RSyntaxNode,
}
impl AstNode for RParameterDefault {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_PARAMETER_DEFAULT
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_PARAMETER_DEFAULT { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RParameterDefault> for RSyntaxNode {
    fn from(n: RParameterDefault) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RParameterDefault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RIfStatement {
    syntax: RSyntaxNode,
}
impl AstNode for RIfStatement {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_IF_STATEMENT
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_IF_STATEMENT { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RIfStatement> for RSyntaxNode {
    fn from(n: RIfStatement) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RIfStatement {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RElseClause {
    syntax: RSyntaxNode,
}
impl AstNode for RElseClause {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_ELSE_CLAUSE
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_ELSE_CLAUSE { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RElseClause> for RSyntaxNode {
    fn from(n: RElseClause) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RElseClause {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RForStatement {
    syntax: RSyntaxNode,
}
impl AstNode for RForStatement {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_FOR_STATEMENT
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_FOR_STATEMENT { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RForStatement> for RSyntaxNode {
    fn from(n: RForStatement) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RForStatement {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RWhileStatement {
    syntax: RSyntaxNode,
}
impl AstNode for RWhileStatement {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_WHILE_STATEMENT
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_WHILE_STATEMENT { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RWhileStatement> for RSyntaxNode {
    fn from(n: RWhileStatement) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RWhileStatement {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RRepeatStatement {
    syntax: RSyntaxNode,
}
impl AstNode for RRepeatStatement {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_REPEAT_STATEMENT
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_REPEAT_STATEMENT { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RRepeatStatement> for RSyntaxNode {
    fn from(n: RRepeatStatement) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RRepeatStatement {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RBracedExpressions {
    syntax: RSyntaxNode,
}
impl AstNode for RBracedExpressions {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_BRACED_EXPRESSIONS
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RBracedExpressions> for RSyntaxNode {
    fn from(n: RBracedExpressions) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RBracedExpressions {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RParenthesizedExpression {
    syntax: RSyntaxNode,
}
impl AstNode for RParenthesizedExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_PARENTHESIZED_EXPRESSION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_PARENTHESIZED_EXPRESSION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RParenthesizedExpression> for RSyntaxNode {
    fn from(n: RParenthesizedExpression) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RParenthesizedExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RCall {
    syntax: RSyntaxNode,
}
impl AstNode for RCall {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_CALL
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_CALL { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RCall> for RSyntaxNode {
    fn from(n: RCall) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RCall {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RCallArguments {
    syntax: RSyntaxNode,
}
impl AstNode for RCallArguments {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_CALL_ARGUMENTS
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_CALL_ARGUMENTS { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RCallArguments> for RSyntaxNode {
    fn from(n: RCallArguments) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RCallArguments {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RSubset {
    syntax: RSyntaxNode,
}
impl AstNode for RSubset {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_SUBSET
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_SUBSET { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RSubset> for RSyntaxNode {
    fn from(n: RSubset) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RSubset {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RSubsetArguments {
    syntax: RSyntaxNode,
}
impl AstNode for RSubsetArguments {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_SUBSET_ARGUMENTS
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_SUBSET_ARGUMENTS { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RSubsetArguments> for RSyntaxNode {
    fn from(n: RSubsetArguments) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RSubsetArguments {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RSubset2 {
    syntax: RSyntaxNode,
}
impl AstNode for RSubset2 {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_SUBSET2
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_SUBSET2 { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RSubset2> for RSyntaxNode {
    fn from(n: RSubset2) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RSubset2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RSubset2Arguments {
    syntax: RSyntaxNode,
}
impl AstNode for RSubset2Arguments {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_SUBSET2_ARGUMENTS
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_SUBSET2_ARGUMENTS { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RSubset2Arguments> for RSyntaxNode {
    fn from(n: RSubset2Arguments) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RSubset2Arguments {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RArgument {
    syntax: RSyntaxNode,
}
impl AstNode for RArgument {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_ARGUMENT
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_ARGUMENT { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RArgument> for RSyntaxNode {
    fn from(n: RArgument) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RArgument {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RArgumentNameClause {
    syntax: RSyntaxNode,
}
impl AstNode for RArgumentNameClause {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_ARGUMENT_NAME_CLAUSE
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_ARGUMENT_NAME_CLAUSE { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RArgumentNameClause> for RSyntaxNode {
    fn from(n: RArgumentNameClause) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RArgumentNameClause {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RUnaryExpression {
    syntax: RSyntaxNode,
}
impl AstNode for RUnaryExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_UNARY_EXPRESSION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_UNARY_EXPRESSION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RUnaryExpression> for RSyntaxNode {
    fn from(n: RUnaryExpression) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RUnaryExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RBinaryExpression {
    syntax: RSyntaxNode,
}
impl AstNode for RBinaryExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_BINARY_EXPRESSION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_BINARY_EXPRESSION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RBinaryExpression> for RSyntaxNode {
    fn from(n: RBinaryExpression) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RBinaryExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RExtractExpression {
    syntax: RSyntaxNode,
}
impl AstNode for RExtractExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_EXTRACT_EXPRESSION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_EXTRACT_EXPRESSION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RExtractExpression> for RSyntaxNode {
    fn from(n: RExtractExpression) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RExtractExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RNamespaceExpression {
    syntax: RSyntaxNode,
}
impl AstNode for RNamespaceExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_NAMESPACE_EXPRESSION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_NAMESPACE_EXPRESSION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RNamespaceExpression> for RSyntaxNode {
    fn from(n: RNamespaceExpression) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RNamespaceExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RIdentifier {
    syntax: RSyntaxNode,
}
impl AstNode for RIdentifier {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_IDENTIFIER
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_IDENTIFIER { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RIdentifier> for RSyntaxNode {
    fn from(n: RIdentifier) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RIdentifier {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RDots {
    syntax: RSyntaxNode,
}
impl AstNode for RDots {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_DOTS
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_DOTS { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RDots> for RSyntaxNode {
    fn from(n: RDots) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RDots {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RDotDotI {
    syntax: RSyntaxNode,
}
impl AstNode for RDotDotI {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_DOT_DOT_I
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_DOT_DOT_I { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RDotDotI> for RSyntaxNode {
    fn from(n: RDotDotI) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RDotDotI {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RReturnExpression {
    syntax: RSyntaxNode,
}
impl AstNode for RReturnExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_RETURN_EXPRESSION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_RETURN_EXPRESSION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RReturnExpression> for RSyntaxNode {
    fn from(n: RReturnExpression) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RReturnExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RNextExpression {
    syntax: RSyntaxNode,
}
impl AstNode for RNextExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_NEXT_EXPRESSION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_NEXT_EXPRESSION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RNextExpression> for RSyntaxNode {
    fn from(n: RNextExpression) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RNextExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RBreakExpression {
    syntax: RSyntaxNode,
}
impl AstNode for RBreakExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_BREAK_EXPRESSION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_BREAK_EXPRESSION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RBreakExpression> for RSyntaxNode {
    fn from(n: RBreakExpression) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RBreakExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RTrueExpression {
    syntax: RSyntaxNode,
}
impl AstNode for RTrueExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_TRUE_EXPRESSION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_TRUE_EXPRESSION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RTrueExpression> for RSyntaxNode {
    fn from(n: RTrueExpression) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RTrueExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RFalseExpression {
    syntax: RSyntaxNode,
}
impl AstNode for RFalseExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_FALSE_EXPRESSION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_FALSE_EXPRESSION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RFalseExpression> for RSyntaxNode {
    fn from(n: RFalseExpression) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RFalseExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RNullExpression {
    syntax: RSyntaxNode,
}
impl AstNode for RNullExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_NULL_EXPRESSION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_NULL_EXPRESSION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RNullExpression> for RSyntaxNode {
    fn from(n: RNullExpression) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RNullExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RInfExpression {
    syntax: RSyntaxNode,
}
impl AstNode for RInfExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_INF_EXPRESSION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_INF_EXPRESSION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RInfExpression> for RSyntaxNode {
    fn from(n: RInfExpression) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RInfExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RNanExpression {
    syntax: RSyntaxNode,
}
impl AstNode for RNanExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_NAN_EXPRESSION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_NAN_EXPRESSION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RNanExpression> for RSyntaxNode {
    fn from(n: RNanExpression) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RNanExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RNaExpression {
    syntax: RSyntaxNode,
}
impl AstNode for RNaExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_NA_EXPRESSION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_NA_EXPRESSION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RNaExpression> for RSyntaxNode {
    fn from(n: RNaExpression) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RNaExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RIntegerValue {
    syntax: RSyntaxNode,
}
impl AstNode for RIntegerValue {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_INTEGER_VALUE
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_INTEGER_VALUE { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RIntegerValue> for RSyntaxNode {
    fn from(n: RIntegerValue) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RIntegerValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RDoubleValue {
    syntax: RSyntaxNode,
}
impl AstNode for RDoubleValue {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_DOUBLE_VALUE
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_DOUBLE_VALUE { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RDoubleValue> for RSyntaxNode {
    fn from(n: RDoubleValue) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RDoubleValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RComplexValue {
    syntax: RSyntaxNode,
}
impl AstNode for RComplexValue {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_COMPLEX_VALUE
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_COMPLEX_VALUE { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RComplexValue> for RSyntaxNode {
    fn from(n: RComplexValue) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RComplexValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RStringValue {
    syntax: RSyntaxNode,
}
impl AstNode for RStringValue {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_STRING_VALUE
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_STRING_VALUE { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RStringValue> for RSyntaxNode {
    fn from(n: RStringValue) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RStringValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RBogus {
    syntax: RSyntaxNode,
}
impl AstNode for RBogus {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_BOGUS
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_BOGUS { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RBogus> for RSyntaxNode {
    fn from(n: RBogus) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RBogus {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RBogusValue {
    syntax: RSyntaxNode,
}
impl AstNode for RBogusValue {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_BOGUS_VALUE
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_BOGUS_VALUE { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RBogusValue> for RSyntaxNode {
    fn from(n: RBogusValue) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RBogusValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RBogusExpression {
    syntax: RSyntaxNode,
}
impl AstNode for RBogusExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_BOGUS_EXPRESSION
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_BOGUS_EXPRESSION { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RBogusExpression> for RSyntaxNode {
    fn from(n: RBogusExpression) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RBogusExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RExpressionList {
    syntax: RSyntaxNode,
}
impl AstNode for RExpressionList {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_EXPRESSION_LIST
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_EXPRESSION_LIST { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RExpressionList> for RSyntaxNode {
    fn from(n: RExpressionList) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RExpressionList {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RParameterList {
    syntax: RSyntaxNode,
}
impl AstNode for RParameterList {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_PARAMETER_LIST
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_PARAMETER_LIST { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RParameterList> for RSyntaxNode {
    fn from(n: RParameterList) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RParameterList {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RArgumentList {
    syntax: RSyntaxNode,
}
impl AstNode for RArgumentList {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        k == RSyntaxKind::R_ARGUMENT_LIST
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if syntax.kind() == RSyntaxKind::R_ARGUMENT_LIST { Some(Self { syntax }) } else { None }
    }
    fn syntax(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax(self) -> RSyntaxNode {
        self.syntax
    }
}
impl From<RArgumentList> for RSyntaxNode {
    fn from(n: RArgumentList) -> Self {
        n.syntax
    }
}
impl std::fmt::Display for RArgumentList {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.syntax, f)
    }
}
impl RRoot {
    pub fn bom_token(&self) -> Option<RSyntaxToken> {
        support::token(&self.syntax, 0)
    }
    pub fn expressions(&self) -> RExpressionList {
        support::list(&self.syntax, 1)
    }
    pub fn eof_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 2)
    }
    pub fn as_fields(&self) -> RRootFields {
        RRootFields { bom_token: self.bom_token(), expressions: self.expressions(), eof_token: self.eof_token() }
    }
}
pub struct RRootFields {
    pub bom_token: Option<RSyntaxToken>,
    pub expressions: RExpressionList,
    pub eof_token: SyntaxResult<RSyntaxToken>,
}
impl RFunctionDefinition {
    pub fn name(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn parameters(&self) -> SyntaxResult<RParameters> {
        support::required_node(&self.syntax, 1)
    }
    pub fn body(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 2)
    }
    pub fn as_fields(&self) -> RFunctionDefinitionFields {
        RFunctionDefinitionFields { name: self.name(), parameters: self.parameters(), body: self.body() }
    }
}
pub struct RFunctionDefinitionFields {
    pub name: SyntaxResult<RSyntaxToken>,
    pub parameters: SyntaxResult<RParameters>,
    pub body: SyntaxResult<AnyRExpression>,
}
impl RParameters {
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn items(&self) -> RParameterList {
        support::list(&self.syntax, 1)
    }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 2)
    }
    pub fn as_fields(&self) -> RParametersFields {
        RParametersFields { l_paren_token: self.l_paren_token(), items: self.items(), r_paren_token: self.r_paren_token() }
    }
}
pub struct RParametersFields {
    pub l_paren_token: SyntaxResult<RSyntaxToken>,
    pub items: RParameterList,
    pub r_paren_token: SyntaxResult<RSyntaxToken>,
}
impl RParameter {
    pub fn name(&self) -> SyntaxResult<AnyRParameterName> {
        support::required_node(&self.syntax, 0)
    }
    pub fn default(&self) -> Option<RParameterDefault> {
        support::node(&self.syntax, 1)
    }
    pub fn as_fields(&self) -> RParameterFields {
        RParameterFields { name: self.name(), default: self.default() }
    }
}
pub struct RParameterFields {
    pub name: SyntaxResult<AnyRParameterName>,
    pub default: Option<RParameterDefault>,
}
impl RParameterDefault {
    pub fn eq_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn value(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 1)
    }
    pub fn as_fields(&self) -> RParameterDefaultFields {
        RParameterDefaultFields { eq_token: self.eq_token(), value: self.value() }
    }
}
pub struct RParameterDefaultFields {
    pub eq_token: SyntaxResult<RSyntaxToken>,
    pub value: SyntaxResult<AnyRExpression>,
}
impl RIfStatement {
    pub fn if_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 1)
    }
    pub fn condition(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 2)
    }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 3)
    }
    pub fn consequence(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 4)
    }
    pub fn else_clause(&self) -> Option<RElseClause> {
        support::node(&self.syntax, 5)
    }
    pub fn as_fields(&self) -> RIfStatementFields {
        RIfStatementFields { if_token: self.if_token(), l_paren_token: self.l_paren_token(), condition: self.condition(), r_paren_token: self.r_paren_token(), consequence: self.consequence(), else_clause: self.else_clause() }
    }
}
pub struct RIfStatementFields {
    pub if_token: SyntaxResult<RSyntaxToken>,
    pub l_paren_token: SyntaxResult<RSyntaxToken>,
    pub condition: SyntaxResult<AnyRExpression>,
    pub r_paren_token: SyntaxResult<RSyntaxToken>,
    pub consequence: SyntaxResult<AnyRExpression>,
    pub else_clause: Option<RElseClause>,
}
impl RElseClause {
    pub fn else_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn alternative(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 1)
    }
    pub fn as_fields(&self) -> RElseClauseFields {
        RElseClauseFields { else_token: self.else_token(), alternative: self.alternative() }
    }
}
pub struct RElseClauseFields {
    pub else_token: SyntaxResult<RSyntaxToken>,
    pub alternative: SyntaxResult<AnyRExpression>,
}
impl RForStatement {
    pub fn for_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 1)
    }
    pub fn variable(&self) -> SyntaxResult<RIdentifier> {
        support::required_node(&self.syntax, 2)
    }
    pub fn in_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 3)
    }
    pub fn sequence(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 4)
    }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 5)
    }
    pub fn body(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 6)
    }
    pub fn as_fields(&self) -> RForStatementFields {
        RForStatementFields { for_token: self.for_token(), l_paren_token: self.l_paren_token(), variable: self.variable(), in_token: self.in_token(), sequence: self.sequence(), r_paren_token: self.r_paren_token(), body: self.body() }
    }
}
pub struct RForStatementFields {
    pub for_token: SyntaxResult<RSyntaxToken>,
    pub l_paren_token: SyntaxResult<RSyntaxToken>,
    pub variable: SyntaxResult<RIdentifier>,
    pub in_token: SyntaxResult<RSyntaxToken>,
    pub sequence: SyntaxResult<AnyRExpression>,
    pub r_paren_token: SyntaxResult<RSyntaxToken>,
    pub body: SyntaxResult<AnyRExpression>,
}
impl RWhileStatement {
    pub fn while_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 1)
    }
    pub fn condition(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 2)
    }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 3)
    }
    pub fn body(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 4)
    }
    pub fn as_fields(&self) -> RWhileStatementFields {
        RWhileStatementFields { while_token: self.while_token(), l_paren_token: self.l_paren_token(), condition: self.condition(), r_paren_token: self.r_paren_token(), body: self.body() }
    }
}
pub struct RWhileStatementFields {
    pub while_token: SyntaxResult<RSyntaxToken>,
    pub l_paren_token: SyntaxResult<RSyntaxToken>,
    pub condition: SyntaxResult<AnyRExpression>,
    pub r_paren_token: SyntaxResult<RSyntaxToken>,
    pub body: SyntaxResult<AnyRExpression>,
}
impl RRepeatStatement {
    pub fn repeat_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn body(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 1)
    }
    pub fn as_fields(&self) -> RRepeatStatementFields {
        RRepeatStatementFields { repeat_token: self.repeat_token(), body: self.body() }
    }
}
pub struct RRepeatStatementFields {
    pub repeat_token: SyntaxResult<RSyntaxToken>,
    pub body: SyntaxResult<AnyRExpression>,
}
impl RBracedExpressions {
    pub fn l_curly_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn expressions(&self) -> RExpressionList {
        support::list(&self.syntax, 1)
    }
    pub fn r_curly_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 2)
    }
    pub fn as_fields(&self) -> RBracedExpressionsFields {
        RBracedExpressionsFields { l_curly_token: self.l_curly_token(), expressions: self.expressions(), r_curly_token: self.r_curly_token() }
    }
}
pub struct RBracedExpressionsFields {
    pub l_curly_token: SyntaxResult<RSyntaxToken>,
    pub expressions: RExpressionList,
    pub r_curly_token: SyntaxResult<RSyntaxToken>,
}
impl RParenthesizedExpression {
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn body(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 1)
    }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 2)
    }
    pub fn as_fields(&self) -> RParenthesizedExpressionFields {
        RParenthesizedExpressionFields { l_paren_token: self.l_paren_token(), body: self.body(), r_paren_token: self.r_paren_token() }
    }
}
pub struct RParenthesizedExpressionFields {
    pub l_paren_token: SyntaxResult<RSyntaxToken>,
    pub body: SyntaxResult<AnyRExpression>,
    pub r_paren_token: SyntaxResult<RSyntaxToken>,
}
impl RCall {
    pub fn function(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 0)
    }
    pub fn arguments(&self) -> SyntaxResult<RCallArguments> {
        support::required_node(&self.syntax, 1)
    }
    pub fn as_fields(&self) -> RCallFields {
        RCallFields { function: self.function(), arguments: self.arguments() }
    }
}
pub struct RCallFields {
    pub function: SyntaxResult<AnyRExpression>,
    pub arguments: SyntaxResult<RCallArguments>,
}
impl RCallArguments {
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn items(&self) -> RArgumentList {
        support::list(&self.syntax, 1)
    }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 2)
    }
    pub fn as_fields(&self) -> RCallArgumentsFields {
        RCallArgumentsFields { l_paren_token: self.l_paren_token(), items: self.items(), r_paren_token: self.r_paren_token() }
    }
}
pub struct RCallArgumentsFields {
    pub l_paren_token: SyntaxResult<RSyntaxToken>,
    pub items: RArgumentList,
    pub r_paren_token: SyntaxResult<RSyntaxToken>,
}
impl RSubset {
    pub fn function(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 0)
    }
    pub fn arguments(&self) -> SyntaxResult<RSubsetArguments> {
        support::required_node(&self.syntax, 1)
    }
    pub fn as_fields(&self) -> RSubsetFields {
        RSubsetFields { function: self.function(), arguments: self.arguments() }
    }
}
pub struct RSubsetFields {
    pub function: SyntaxResult<AnyRExpression>,
    pub arguments: SyntaxResult<RSubsetArguments>,
}
impl RSubsetArguments {
    pub fn l_brack_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn items(&self) -> RArgumentList {
        support::list(&self.syntax, 1)
    }
    pub fn r_brack_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 2)
    }
    pub fn as_fields(&self) -> RSubsetArgumentsFields {
        RSubsetArgumentsFields { l_brack_token: self.l_brack_token(), items: self.items(), r_brack_token: self.r_brack_token() }
    }
}
pub struct RSubsetArgumentsFields {
    pub l_brack_token: SyntaxResult<RSyntaxToken>,
    pub items: RArgumentList,
    pub r_brack_token: SyntaxResult<RSyntaxToken>,
}
impl RSubset2 {
    pub fn function(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 0)
    }
    pub fn arguments(&self) -> SyntaxResult<RSubset2Arguments> {
        support::required_node(&self.syntax, 1)
    }
    pub fn as_fields(&self) -> RSubset2Fields {
        RSubset2Fields { function: self.function(), arguments: self.arguments() }
    }
}
pub struct RSubset2Fields {
    pub function: SyntaxResult<AnyRExpression>,
    pub arguments: SyntaxResult<RSubset2Arguments>,
}
impl RSubset2Arguments {
    pub fn l_brack2_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn items(&self) -> RArgumentList {
        support::list(&self.syntax, 1)
    }
    pub fn r_brack2_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 2)
    }
    pub fn as_fields(&self) -> RSubset2ArgumentsFields {
        RSubset2ArgumentsFields { l_brack2_token: self.l_brack2_token(), items: self.items(), r_brack2_token: self.r_brack2_token() }
    }
}
pub struct RSubset2ArgumentsFields {
    pub l_brack2_token: SyntaxResult<RSyntaxToken>,
    pub items: RArgumentList,
    pub r_brack2_token: SyntaxResult<RSyntaxToken>,
}
impl RArgument {
    pub fn name_clause(&self) -> Option<RArgumentNameClause> {
        support::node(&self.syntax, 0)
    }
    pub fn value(&self) -> Option<AnyRExpression> {
        support::node(&self.syntax, 1)
    }
    pub fn as_fields(&self) -> RArgumentFields {
        RArgumentFields { name_clause: self.name_clause(), value: self.value() }
    }
}
pub struct RArgumentFields {
    pub name_clause: Option<RArgumentNameClause>,
    pub value: Option<AnyRExpression>,
}
impl RArgumentNameClause {
    pub fn name(&self) -> SyntaxResult<AnyRArgumentName> {
        support::required_node(&self.syntax, 0)
    }
    pub fn eq_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 1)
    }
    pub fn as_fields(&self) -> RArgumentNameClauseFields {
        RArgumentNameClauseFields { name: self.name(), eq_token: self.eq_token() }
    }
}
pub struct RArgumentNameClauseFields {
    pub name: SyntaxResult<AnyRArgumentName>,
    pub eq_token: SyntaxResult<RSyntaxToken>,
}
impl RUnaryExpression {
    pub fn operator(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn argument(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 1)
    }
    pub fn as_fields(&self) -> RUnaryExpressionFields {
        RUnaryExpressionFields { operator: self.operator(), argument: self.argument() }
    }
}
pub struct RUnaryExpressionFields {
    pub operator: SyntaxResult<RSyntaxToken>,
    pub argument: SyntaxResult<AnyRExpression>,
}
impl RBinaryExpression {
    pub fn left(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 0)
    }
    pub fn operator(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 1)
    }
    pub fn right(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 2)
    }
    pub fn as_fields(&self) -> RBinaryExpressionFields {
        RBinaryExpressionFields { left: self.left(), operator: self.operator(), right: self.right() }
    }
}
pub struct RBinaryExpressionFields {
    pub left: SyntaxResult<AnyRExpression>,
    pub operator: SyntaxResult<RSyntaxToken>,
    pub right: SyntaxResult<AnyRExpression>,
}
impl RExtractExpression {
    pub fn left(&self) -> SyntaxResult<AnyRExpression> {
        support::required_node(&self.syntax, 0)
    }
    pub fn operator(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 1)
    }
    pub fn right(&self) -> SyntaxResult<AnyRSelector> {
        support::required_node(&self.syntax, 2)
    }
    pub fn as_fields(&self) -> RExtractExpressionFields {
        RExtractExpressionFields { left: self.left(), operator: self.operator(), right: self.right() }
    }
}
pub struct RExtractExpressionFields {
    pub left: SyntaxResult<AnyRExpression>,
    pub operator: SyntaxResult<RSyntaxToken>,
    pub right: SyntaxResult<AnyRSelector>,
}
impl RNamespaceExpression {
    pub fn left(&self) -> SyntaxResult<AnyRSelector> {
        support::required_node(&self.syntax, 0)
    }
    pub fn operator(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 1)
    }
    pub fn right(&self) -> SyntaxResult<AnyRSelector> {
        support::required_node(&self.syntax, 2)
    }
    pub fn as_fields(&self) -> RNamespaceExpressionFields {
        RNamespaceExpressionFields { left: self.left(), operator: self.operator(), right: self.right() }
    }
}
pub struct RNamespaceExpressionFields {
    pub left: SyntaxResult<AnyRSelector>,
    pub operator: SyntaxResult<RSyntaxToken>,
    pub right: SyntaxResult<AnyRSelector>,
}
impl RIdentifier {
    pub fn name_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RIdentifierFields {
        RIdentifierFields { name_token: self.name_token() }
    }
}
pub struct RIdentifierFields {
    pub name_token: SyntaxResult<RSyntaxToken>,
}
impl RDots {
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RDotsFields {
        RDotsFields { value_token: self.value_token() }
    }
}
pub struct RDotsFields {
    pub value_token: SyntaxResult<RSyntaxToken>,
}
impl RDotDotI {
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RDotDotIFields {
        RDotDotIFields { value_token: self.value_token() }
    }
}
pub struct RDotDotIFields {
    pub value_token: SyntaxResult<RSyntaxToken>,
}
impl RReturnExpression {
    pub fn return_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RReturnExpressionFields {
        RReturnExpressionFields { return_token: self.return_token() }
    }
}
pub struct RReturnExpressionFields {
    pub return_token: SyntaxResult<RSyntaxToken>,
}
impl RNextExpression {
    pub fn next_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RNextExpressionFields {
        RNextExpressionFields { next_token: self.next_token() }
    }
}
pub struct RNextExpressionFields {
    pub next_token: SyntaxResult<RSyntaxToken>,
}
impl RBreakExpression {
    pub fn break_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RBreakExpressionFields {
        RBreakExpressionFields { break_token: self.break_token() }
    }
}
pub struct RBreakExpressionFields {
    pub break_token: SyntaxResult<RSyntaxToken>,
}
impl RTrueExpression {
    pub fn true_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RTrueExpressionFields {
        RTrueExpressionFields { true_token: self.true_token() }
    }
}
pub struct RTrueExpressionFields {
    pub true_token: SyntaxResult<RSyntaxToken>,
}
impl RFalseExpression {
    pub fn false_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RFalseExpressionFields {
        RFalseExpressionFields { false_token: self.false_token() }
    }
}
pub struct RFalseExpressionFields {
    pub false_token: SyntaxResult<RSyntaxToken>,
}
impl RNullExpression {
    pub fn null_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RNullExpressionFields {
        RNullExpressionFields { null_token: self.null_token() }
    }
}
pub struct RNullExpressionFields {
    pub null_token: SyntaxResult<RSyntaxToken>,
}
impl RInfExpression {
    pub fn inf_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RInfExpressionFields {
        RInfExpressionFields { inf_token: self.inf_token() }
    }
}
pub struct RInfExpressionFields {
    pub inf_token: SyntaxResult<RSyntaxToken>,
}
impl RNanExpression {
    pub fn nan_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RNanExpressionFields {
        RNanExpressionFields { nan_token: self.nan_token() }
    }
}
pub struct RNanExpressionFields {
    pub nan_token: SyntaxResult<RSyntaxToken>,
}
impl RNaExpression {
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RNaExpressionFields {
        RNaExpressionFields { value_token: self.value_token() }
    }
}
pub struct RNaExpressionFields {
    pub value_token: SyntaxResult<RSyntaxToken>,
}
impl RIntegerValue {
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RIntegerValueFields {
        RIntegerValueFields { value_token: self.value_token() }
    }
}
pub struct RIntegerValueFields {
    pub value_token: SyntaxResult<RSyntaxToken>,
}
impl RDoubleValue {
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RDoubleValueFields {
        RDoubleValueFields { value_token: self.value_token() }
    }
}
pub struct RDoubleValueFields {
    pub value_token: SyntaxResult<RSyntaxToken>,
}
impl RComplexValue {
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RComplexValueFields {
        RComplexValueFields { value_token: self.value_token() }
    }
}
pub struct RComplexValueFields {
    pub value_token: SyntaxResult<RSyntaxToken>,
}
impl RStringValue {
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> {
        support::required_token(&self.syntax, 0)
    }
    pub fn as_fields(&self) -> RStringValueFields {
        RStringValueFields { value_token: self.value_token() }
    }
}
pub struct RStringValueFields {
    pub value_token: SyntaxResult<RSyntaxToken>,
}
impl AstNodeList for RExpressionList {
    type Language = RLanguage;
    type Node = AnyRExpression;
    fn syntax_list(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax_list(self) -> RSyntaxNode {
        self.syntax
    }
}
impl IntoIterator for RExpressionList {
    type Item = AnyRExpression;
    type IntoIter = std::vec::IntoIter<AnyRExpression>;
    fn into_iter(self) -> Self::IntoIter {
        AstNodeList::iter(&self)
    }
}
impl IntoIterator for &RExpressionList {
    type Item = AnyRExpression;
    type IntoIter = std::vec::IntoIter<AnyRExpression>;
    fn into_iter(self) -> Self::IntoIter {
        AstNodeList::iter(self)
    }
}
impl AstSeparatedList for RParameterList {
    type Language = RLanguage;
    type Node = RParameter;
    fn syntax_list(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax_list(self) -> RSyntaxNode {
        self.syntax
    }
}
impl IntoIterator for RParameterList {
    type Item = SyntaxResult<RParameter>;
    type IntoIter = std::vec::IntoIter<SyntaxResult<RParameter>>;
    fn into_iter(self) -> Self::IntoIter {
        AstSeparatedList::iter(&self)
    }
}
impl IntoIterator for &RParameterList {
    type Item = SyntaxResult<RParameter>;
    type IntoIter = std::vec::IntoIter<SyntaxResult<RParameter>>;
    fn into_iter(self) -> Self::IntoIter {
        AstSeparatedList::iter(self)
    }
}
impl AstSeparatedList for RArgumentList {
    type Language = RLanguage;
    type Node = RArgument;
    fn syntax_list(&self) -> &RSyntaxNode {
        &self.syntax
    }
    fn into_syntax_list(self) -> RSyntaxNode {
        self.syntax
    }
}
impl IntoIterator for RArgumentList {
    type Item = SyntaxResult<RArgument>;
    type IntoIter = std::vec::IntoIter<SyntaxResult<RArgument>>;
    fn into_iter(self) -> Self::IntoIter {
        AstSeparatedList::iter(&self)
    }
}
impl IntoIterator for &RArgumentList {
    type Item = SyntaxResult<RArgument>;
    type IntoIter = std::vec::IntoIter<SyntaxResult<RArgument>>;
    fn into_iter(self) -> Self::IntoIter {
        AstSeparatedList::iter(self)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AnyRValue {
    RIntegerValue(RIntegerValue),
    RDoubleValue(RDoubleValue),
    RComplexValue(RComplexValue),
    RStringValue(RStringValue),
    RBogusValue(RBogusValue),
}
impl AstNode for AnyRValue {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        RIntegerValue::can_cast(k) || RDoubleValue::can_cast(k) || RComplexValue::can_cast(k) || RStringValue::can_cast(k) || RBogusValue::can_cast(k)
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        Some(match syntax.kind() {
            RSyntaxKind::R_INTEGER_VALUE => Self::RIntegerValue(RIntegerValue { syntax }),
            RSyntaxKind::R_DOUBLE_VALUE => Self::RDoubleValue(RDoubleValue { syntax }),
            RSyntaxKind::R_COMPLEX_VALUE => Self::RComplexValue(RComplexValue { syntax }),
            RSyntaxKind::R_STRING_VALUE => Self::RStringValue(RStringValue { syntax }),
            RSyntaxKind::R_BOGUS_VALUE => Self::RBogusValue(RBogusValue { syntax }),
            _ => return None,
        })
    }
    fn syntax(&self) -> &RSyntaxNode {
        match self {
            Self::RIntegerValue(n) => n.syntax(),
            Self::RDoubleValue(n) => n.syntax(),
            Self::RComplexValue(n) => n.syntax(),
            Self::RStringValue(n) => n.syntax(),
            Self::RBogusValue(n) => n.syntax(),
        }
    }
    fn into_syntax(self) -> RSyntaxNode {
        match self {
            Self::RIntegerValue(n) => n.into_syntax(),
            Self::RDoubleValue(n) => n.into_syntax(),
            Self::RComplexValue(n) => n.into_syntax(),
            Self::RStringValue(n) => n.into_syntax(),
            Self::RBogusValue(n) => n.into_syntax(),
        }
    }
}
impl From<AnyRValue> for RSyntaxNode {
    fn from(n: AnyRValue) -> Self {
        n.into_syntax()
    }
}
impl std::fmt::Display for AnyRValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(self.syntax(), f)
    }
}
impl AnyRValue {
    pub fn as_r_integer_value(&self) -> Option<&RIntegerValue> {
        if let Self::RIntegerValue(n) = self { Some(n) } else { None }
    }
    pub fn as_r_double_value(&self) -> Option<&RDoubleValue> {
        if let Self::RDoubleValue(n) = self { Some(n) } else { None }
    }
    pub fn as_r_complex_value(&self) -> Option<&RComplexValue> {
        if let Self::RComplexValue(n) = self { Some(n) } else { None }
    }
    pub fn as_r_string_value(&self) -> Option<&RStringValue> {
        if let Self::RStringValue(n) = self { Some(n) } else { None }
    }
    pub fn as_r_bogus_value(&self) -> Option<&RBogusValue> {
        if let Self::RBogusValue(n) = self { Some(n) } else { None }
    }
}
impl From<RIntegerValue> for AnyRValue {
    fn from(n: RIntegerValue) -> Self {
        Self::RIntegerValue(n)
    }
}
impl From<RDoubleValue> for AnyRValue {
    fn from(n: RDoubleValue) -> Self {
        Self::RDoubleValue(n)
    }
}
impl From<RComplexValue> for AnyRValue {
    fn from(n: RComplexValue) -> Self {
        Self::RComplexValue(n)
    }
}
impl From<RStringValue> for AnyRValue {
    fn from(n: RStringValue) -> Self {
        Self::RStringValue(n)
    }
}
impl From<RBogusValue> for AnyRValue {
    fn from(n: RBogusValue) -> Self {
        Self::RBogusValue(n)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AnyRExpression {
    RFunctionDefinition(RFunctionDefinition),
    RBinaryExpression(RBinaryExpression),
    RUnaryExpression(RUnaryExpression),
    RIfStatement(RIfStatement),
    RForStatement(RForStatement),
    RWhileStatement(RWhileStatement),
    RRepeatStatement(RRepeatStatement),
    RBracedExpressions(RBracedExpressions),
    RParenthesizedExpression(RParenthesizedExpression),
    RCall(RCall),
    RSubset(RSubset),
    RSubset2(RSubset2),
    RNamespaceExpression(RNamespaceExpression),
    RExtractExpression(RExtractExpression),
    RIdentifier(RIdentifier),
    RReturnExpression(RReturnExpression),
    RNextExpression(RNextExpression),
    RBreakExpression(RBreakExpression),
    RTrueExpression(RTrueExpression),
    RFalseExpression(RFalseExpression),
    RNullExpression(RNullExpression),
    RInfExpression(RInfExpression),
    RNanExpression(RNanExpression),
    RNaExpression(RNaExpression),
    RDots(RDots),
    RDotDotI(RDotDotI),
    RBogusExpression(RBogusExpression),
    AnyRValue(AnyRValue),
}
impl AstNode for AnyRExpression {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        RFunctionDefinition::can_cast(k) || RBinaryExpression::can_cast(k) || RUnaryExpression::can_cast(k) || RIfStatement::can_cast(k) || RForStatement::can_cast(k) || RWhileStatement::can_cast(k) || RRepeatStatement::can_cast(k) || RBracedExpressions::can_cast(k) || RParenthesizedExpression::can_cast(k) || RCall::can_cast(k) || RSubset::can_cast(k) || RSubset2::can_cast(k) || RNamespaceExpression::can_cast(k) || RExtractExpression::can_cast(k) || RIdentifier::can_cast(k) || RReturnExpression::can_cast(k) || RNextExpression::can_cast(k) || RBreakExpression::can_cast(k) || RTrueExpression::can_cast(k) || RFalseExpression::can_cast(k) || RNullExpression::can_cast(k) || RInfExpression::can_cast(k) || RNanExpression::can_cast(k) || RNaExpression::can_cast(k) || RDots::can_cast(k) || RDotDotI::can_cast(k) || RBogusExpression::can_cast(k) || AnyRValue::can_cast(k)
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        Some(match syntax.kind() {
            RSyntaxKind::R_FUNCTION_DEFINITION => Self::RFunctionDefinition(RFunctionDefinition { syntax }),
            RSyntaxKind::R_BINARY_EXPRESSION => Self::RBinaryExpression(RBinaryExpression { syntax }),
            RSyntaxKind::R_UNARY_EXPRESSION => Self::RUnaryExpression(RUnaryExpression { syntax }),
            RSyntaxKind::R_IF_STATEMENT => Self::RIfStatement(RIfStatement { syntax }),
            RSyntaxKind::R_FOR_STATEMENT => Self::RForStatement(RForStatement { syntax }),
            RSyntaxKind::R_WHILE_STATEMENT => Self::RWhileStatement(RWhileStatement { syntax }),
            RSyntaxKind::R_REPEAT_STATEMENT => Self::RRepeatStatement(RRepeatStatement { syntax }),
            RSyntaxKind::R_BRACED_EXPRESSIONS => Self::RBracedExpressions(RBracedExpressions { syntax }),
            RSyntaxKind::R_PARENTHESIZED_EXPRESSION => Self::RParenthesizedExpression(RParenthesizedExpression { syntax }),
            RSyntaxKind::R_CALL => Self::RCall(RCall { syntax }),
            RSyntaxKind::R_SUBSET => Self::RSubset(RSubset { syntax }),
            RSyntaxKind::R_SUBSET2 => Self::RSubset2(RSubset2 { syntax }),
            RSyntaxKind::R_NAMESPACE_EXPRESSION => Self::RNamespaceExpression(RNamespaceExpression { syntax }),
            RSyntaxKind::R_EXTRACT_EXPRESSION => Self::RExtractExpression(RExtractExpression { syntax }),
            RSyntaxKind::R_IDENTIFIER => Self::RIdentifier(RIdentifier { syntax }),
            RSyntaxKind::R_RETURN_EXPRESSION => Self::RReturnExpression(RReturnExpression { syntax }),
            RSyntaxKind::R_NEXT_EXPRESSION => Self::RNextExpression(RNextExpression { syntax }),
            RSyntaxKind::R_BREAK_EXPRESSION => Self::RBreakExpression(RBreakExpression { syntax }),
            RSyntaxKind::R_TRUE_EXPRESSION => Self::RTrueExpression(RTrueExpression { syntax }),
            RSyntaxKind::R_FALSE_EXPRESSION => Self::RFalseExpression(RFalseExpression { syntax }),
            RSyntaxKind::R_NULL_EXPRESSION => Self::RNullExpression(RNullExpression { syntax }),
            RSyntaxKind::R_INF_EXPRESSION => Self::RInfExpression(RInfExpression { syntax }),
            RSyntaxKind::R_NAN_EXPRESSION => Self::RNanExpression(RNanExpression { syntax }),
            RSyntaxKind::R_NA_EXPRESSION => Self::RNaExpression(RNaExpression { syntax }),
            RSyntaxKind::R_DOTS => Self::RDots(RDots { syntax }),
            RSyntaxKind::R_DOT_DOT_I => Self::RDotDotI(RDotDotI { syntax }),
            RSyntaxKind::R_BOGUS_EXPRESSION => Self::RBogusExpression(RBogusExpression { syntax }),
            k if AnyRValue::can_cast(k) => Self::AnyRValue(AnyRValue::cast(syntax)?),
            _ => return None,
        })
    }
    fn syntax(&self) -> &RSyntaxNode {
        match self {
            Self::RFunctionDefinition(n) => n.syntax(),
            Self::RBinaryExpression(n) => n.syntax(),
            Self::RUnaryExpression(n) => n.syntax(),
            Self::RIfStatement(n) => n.syntax(),
            Self::RForStatement(n) => n.syntax(),
            Self::RWhileStatement(n) => n.syntax(),
            Self::RRepeatStatement(n) => n.syntax(),
            Self::RBracedExpressions(n) => n.syntax(),
            Self::RParenthesizedExpression(n) => n.syntax(),
            Self::RCall(n) => n.syntax(),
            Self::RSubset(n) => n.syntax(),
            Self::RSubset2(n) => n.syntax(),
            Self::RNamespaceExpression(n) => n.syntax(),
            Self::RExtractExpression(n) => n.syntax(),
            Self::RIdentifier(n) => n.syntax(),
            Self::RReturnExpression(n) => n.syntax(),
            Self::RNextExpression(n) => n.syntax(),
            Self::RBreakExpression(n) => n.syntax(),
            Self::RTrueExpression(n) => n.syntax(),
            Self::RFalseExpression(n) => n.syntax(),
            Self::RNullExpression(n) => n.syntax(),
            Self::RInfExpression(n) => n.syntax(),
            Self::RNanExpression(n) => n.syntax(),
            Self::RNaExpression(n) => n.syntax(),
            Self::RDots(n) => n.syntax(),
            Self::RDotDotI(n) => n.syntax(),
            Self::RBogusExpression(n) => n.syntax(),
            Self::AnyRValue(n) => n.syntax(),
        }
    }
    fn into_syntax(self) -> RSyntaxNode {
        match self {
            Self::RFunctionDefinition(n) => n.into_syntax(),
            Self::RBinaryExpression(n) => n.into_syntax(),
            Self::RUnaryExpression(n) => n.into_syntax(),
            Self::RIfStatement(n) => n.into_syntax(),
            Self::RForStatement(n) => n.into_syntax(),
            Self::RWhileStatement(n) => n.into_syntax(),
            Self::RRepeatStatement(n) => n.into_syntax(),
            Self::RBracedExpressions(n) => n.into_syntax(),
            Self::RParenthesizedExpression(n) => n.into_syntax(),
            Self::RCall(n) => n.into_syntax(),
            Self::RSubset(n) => n.into_syntax(),
            Self::RSubset2(n) => n.into_syntax(),
            Self::RNamespaceExpression(n) => n.into_syntax(),
            Self::RExtractExpression(n) => n.into_syntax(),
            Self::RIdentifier(n) => n.into_syntax(),
            Self::RReturnExpression(n) => n.into_syntax(),
            Self::RNextExpression(n) => n.into_syntax(),
            Self::RBreakExpression(n) => n.into_syntax(),
            Self::RTrueExpression(n) => n.into_syntax(),
            Self::RFalseExpression(n) => n.into_syntax(),
            Self::RNullExpression(n) => n.into_syntax(),
            Self::RInfExpression(n) => n.into_syntax(),
            Self::RNanExpression(n) => n.into_syntax(),
            Self::RNaExpression(n) => n.into_syntax(),
            Self::RDots(n) => n.into_syntax(),
            Self::RDotDotI(n) => n.into_syntax(),
            Self::RBogusExpression(n) => n.into_syntax(),
            Self::AnyRValue(n) => n.into_syntax(),
        }
    }
}
impl From<AnyRExpression> for RSyntaxNode {
    fn from(n: AnyRExpression) -> Self {
        n.into_syntax()
    }
}
impl std::fmt::Display for AnyRExpression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(self.syntax(), f)
    }
}
impl AnyRExpression {
    pub fn as_r_function_definition(&self) -> Option<&RFunctionDefinition> {
        if let Self::RFunctionDefinition(n) = self { Some(n) } else { None }
    }
    pub fn as_r_binary_expression(&self) -> Option<&RBinaryExpression> {
        if let Self::RBinaryExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_unary_expression(&self) -> Option<&RUnaryExpression> {
        if let Self::RUnaryExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_if_statement(&self) -> Option<&RIfStatement> {
        if let Self::RIfStatement(n) = self { Some(n) } else { None }
    }
    pub fn as_r_for_statement(&self) -> Option<&RForStatement> {
        if let Self::RForStatement(n) = self { Some(n) } else { None }
    }
    pub fn as_r_while_statement(&self) -> Option<&RWhileStatement> {
        if let Self::RWhileStatement(n) = self { Some(n) } else { None }
    }
    pub fn as_r_repeat_statement(&self) -> Option<&RRepeatStatement> {
        if let Self::RRepeatStatement(n) = self { Some(n) } else { None }
    }
    pub fn as_r_braced_expressions(&self) -> Option<&RBracedExpressions> {
        if let Self::RBracedExpressions(n) = self { Some(n) } else { None }
    }
    pub fn as_r_parenthesized_expression(&self) -> Option<&RParenthesizedExpression> {
        if let Self::RParenthesizedExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_call(&self) -> Option<&RCall> {
        if let Self::RCall(n) = self { Some(n) } else { None }
    }
    pub fn as_r_subset(&self) -> Option<&RSubset> {
        if let Self::RSubset(n) = self { Some(n) } else { None }
    }
    pub fn as_r_subset2(&self) -> Option<&RSubset2> {
        if let Self::RSubset2(n) = self { Some(n) } else { None }
    }
    pub fn as_r_namespace_expression(&self) -> Option<&RNamespaceExpression> {
        if let Self::RNamespaceExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_extract_expression(&self) -> Option<&RExtractExpression> {
        if let Self::RExtractExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_identifier(&self) -> Option<&RIdentifier> {
        if let Self::RIdentifier(n) = self { Some(n) } else { None }
    }
    pub fn as_r_return_expression(&self) -> Option<&RReturnExpression> {
        if let Self::RReturnExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_next_expression(&self) -> Option<&RNextExpression> {
        if let Self::RNextExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_break_expression(&self) -> Option<&RBreakExpression> {
        if let Self::RBreakExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_true_expression(&self) -> Option<&RTrueExpression> {
        if let Self::RTrueExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_false_expression(&self) -> Option<&RFalseExpression> {
        if let Self::RFalseExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_null_expression(&self) -> Option<&RNullExpression> {
        if let Self::RNullExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_inf_expression(&self) -> Option<&RInfExpression> {
        if let Self::RInfExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_nan_expression(&self) -> Option<&RNanExpression> {
        if let Self::RNanExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_na_expression(&self) -> Option<&RNaExpression> {
        if let Self::RNaExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_dots(&self) -> Option<&RDots> {
        if let Self::RDots(n) = self { Some(n) } else { None }
    }
    pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> {
        if let Self::RDotDotI(n) = self { Some(n) } else { None }
    }
    pub fn as_r_bogus_expression(&self) -> Option<&RBogusExpression> {
        if let Self::RBogusExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_any_r_value(&self) -> Option<&AnyRValue> {
        if let Self::AnyRValue(n) = self { Some(n) } else { None }
    }
}
impl From<RFunctionDefinition> for AnyRExpression {
    fn from(n: RFunctionDefinition) -> Self {
        Self::RFunctionDefinition(n)
    }
}
impl From<RBinaryExpression> for AnyRExpression {
    fn from(n: RBinaryExpression) -> Self {
        Self::RBinaryExpression(n)
    }
}
impl From<RUnaryExpression> for AnyRExpression {
    fn from(n: RUnaryExpression) -> Self {
        Self::RUnaryExpression(n)
    }
}
impl From<RIfStatement> for AnyRExpression {
    fn from(n: RIfStatement) -> Self {
        Self::RIfStatement(n)
    }
}
impl From<RForStatement> for AnyRExpression {
    fn from(n: RForStatement) -> Self {
        Self::RForStatement(n)
    }
}
impl From<RWhileStatement> for AnyRExpression {
    fn from(n: RWhileStatement) -> Self {
        Self::RWhileStatement(n)
    }
}
impl From<RRepeatStatement> for AnyRExpression {
    fn from(n: RRepeatStatement) -> Self {
        Self::RRepeatStatement(n)
    }
}
impl From<RBracedExpressions> for AnyRExpression {
    fn from(n: RBracedExpressions) -> Self {
        Self::RBracedExpressions(n)
    }
}
impl From<RParenthesizedExpression> for AnyRExpression {
    fn from(n: RParenthesizedExpression) -> Self {
        Self::RParenthesizedExpression(n)
    }
}
impl From<RCall> for AnyRExpression {
    fn from(n: RCall) -> Self {
        Self::RCall(n)
    }
}
impl From<RSubset> for AnyRExpression {
    fn from(n: RSubset) -> Self {
        Self::RSubset(n)
    }
}
impl From<RSubset2> for AnyRExpression {
    fn from(n: RSubset2) -> Self {
        Self::RSubset2(n)
    }
}
impl From<RNamespaceExpression> for AnyRExpression {
    fn from(n: RNamespaceExpression) -> Self {
        Self::RNamespaceExpression(n)
    }
}
impl From<RExtractExpression> for AnyRExpression {
    fn from(n: RExtractExpression) -> Self {
        Self::RExtractExpression(n)
    }
}
impl From<RIdentifier> for AnyRExpression {
    fn from(n: RIdentifier) -> Self {
        Self::RIdentifier(n)
    }
}
impl From<RReturnExpression> for AnyRExpression {
    fn from(n: RReturnExpression) -> Self {
        Self::RReturnExpression(n)
    }
}
impl From<RNextExpression> for AnyRExpression {
    fn from(n: RNextExpression) -> Self {
        Self::RNextExpression(n)
    }
}
impl From<RBreakExpression> for AnyRExpression {
    fn from(n: RBreakExpression) -> Self {
        Self::RBreakExpression(n)
    }
}
impl From<RTrueExpression> for AnyRExpression {
    fn from(n: RTrueExpression) -> Self {
        Self::RTrueExpression(n)
    }
}
impl From<RFalseExpression> for AnyRExpression {
    fn from(n: RFalseExpression) -> Self {
        Self::RFalseExpression(n)
    }
}
impl From<RNullExpression> for AnyRExpression {
    fn from(n: RNullExpression) -> Self {
        Self::RNullExpression(n)
    }
}
impl From<RInfExpression> for AnyRExpression {
    fn from(n: RInfExpression) -> Self {
        Self::RInfExpression(n)
    }
}
impl From<RNanExpression> for AnyRExpression {
    fn from(n: RNanExpression) -> Self {
        Self::RNanExpression(n)
    }
}
impl From<RNaExpression> for AnyRExpression {
    fn from(n: RNaExpression) -> Self {
        Self::RNaExpression(n)
    }
}
impl From<RDots> for AnyRExpression {
    fn from(n: RDots) -> Self {
        Self::RDots(n)
    }
}
impl From<RDotDotI> for AnyRExpression {
    fn from(n: RDotDotI) -> Self {
        Self::RDotDotI(n)
    }
}
impl From<RBogusExpression> for AnyRExpression {
    fn from(n: RBogusExpression) -> Self {
        Self::RBogusExpression(n)
    }
}
impl From<AnyRValue> for AnyRExpression {
    fn from(n: AnyRValue) -> Self {
        Self::AnyRValue(n)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AnyRSelector {
    RIdentifier(RIdentifier),
    RStringValue(RStringValue),
    RDots(RDots),
    RDotDotI(RDotDotI),
    RCall(RCall),
    RParenthesizedExpression(RParenthesizedExpression),
    RReturnExpression(RReturnExpression),
    RBogus(RBogus),
}
impl AstNode for AnyRSelector {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        RIdentifier::can_cast(k) || RStringValue::can_cast(k) || RDots::can_cast(k) || RDotDotI::can_cast(k) || RCall::can_cast(k) || RParenthesizedExpression::can_cast(k) || RReturnExpression::can_cast(k) || RBogus::can_cast(k)
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        Some(match syntax.kind() {
            RSyntaxKind::R_IDENTIFIER => Self::RIdentifier(RIdentifier { syntax }),
            RSyntaxKind::R_STRING_VALUE => Self::RStringValue(RStringValue { syntax }),
            RSyntaxKind::R_DOTS => Self::RDots(RDots { syntax }),
            RSyntaxKind::R_DOT_DOT_I => Self::RDotDotI(RDotDotI { syntax }),
            RSyntaxKind::R_CALL => Self::RCall(RCall { syntax }),
            RSyntaxKind::R_PARENTHESIZED_EXPRESSION => Self::RParenthesizedExpression(RParenthesizedExpression { syntax }),
            RSyntaxKind::R_RETURN_EXPRESSION => Self::RReturnExpression(RReturnExpression { syntax }),
            RSyntaxKind::R_BOGUS => Self::RBogus(RBogus { syntax }),
            _ => return None,
        })
    }
    fn syntax(&self) -> &RSyntaxNode {
        match self {
            Self::RIdentifier(n) => n.syntax(),
            Self::RStringValue(n) => n.syntax(),
            Self::RDots(n) => n.syntax(),
            Self::RDotDotI(n) => n.syntax(),
            Self::RCall(n) => n.syntax(),
            Self::RParenthesizedExpression(n) => n.syntax(),
            Self::RReturnExpression(n) => n.syntax(),
            Self::RBogus(n) => n.syntax(),
        }
    }
    fn into_syntax(self) -> RSyntaxNode {
        match self {
            Self::RIdentifier(n) => n.into_syntax(),
            Self::RStringValue(n) => n.into_syntax(),
            Self::RDots(n) => n.into_syntax(),
            Self::RDotDotI(n) => n.into_syntax(),
            Self::RCall(n) => n.into_syntax(),
            Self::RParenthesizedExpression(n) => n.into_syntax(),
            Self::RReturnExpression(n) => n.into_syntax(),
            Self::RBogus(n) => n.into_syntax(),
        }
    }
}
impl From<AnyRSelector> for RSyntaxNode {
    fn from(n: AnyRSelector) -> Self {
        n.into_syntax()
    }
}
impl std::fmt::Display for AnyRSelector {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(self.syntax(), f)
    }
}
impl AnyRSelector {
    pub fn as_r_identifier(&self) -> Option<&RIdentifier> {
        if let Self::RIdentifier(n) = self { Some(n) } else { None }
    }
    pub fn as_r_string_value(&self) -> Option<&RStringValue> {
        if let Self::RStringValue(n) = self { Some(n) } else { None }
    }
    pub fn as_r_dots(&self) -> Option<&RDots> {
        if let Self::RDots(n) = self { Some(n) } else { None }
    }
    pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> {
        if let Self::RDotDotI(n) = self { Some(n) } else { None }
    }
    pub fn as_r_call(&self) -> Option<&RCall> {
        if let Self::RCall(n) = self { Some(n) } else { None }
    }
    pub fn as_r_parenthesized_expression(&self) -> Option<&RParenthesizedExpression> {
        if let Self::RParenthesizedExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_return_expression(&self) -> Option<&RReturnExpression> {
        if let Self::RReturnExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_bogus(&self) -> Option<&RBogus> {
        if let Self::RBogus(n) = self { Some(n) } else { None }
    }
}
impl From<RIdentifier> for AnyRSelector {
    fn from(n: RIdentifier) -> Self {
        Self::RIdentifier(n)
    }
}
impl From<RStringValue> for AnyRSelector {
    fn from(n: RStringValue) -> Self {
        Self::RStringValue(n)
    }
}
impl From<RDots> for AnyRSelector {
    fn from(n: RDots) -> Self {
        Self::RDots(n)
    }
}
impl From<RDotDotI> for AnyRSelector {
    fn from(n: RDotDotI) -> Self {
        Self::RDotDotI(n)
    }
}
impl From<RCall> for AnyRSelector {
    fn from(n: RCall) -> Self {
        Self::RCall(n)
    }
}
impl From<RParenthesizedExpression> for AnyRSelector {
    fn from(n: RParenthesizedExpression) -> Self {
        Self::RParenthesizedExpression(n)
    }
}
impl From<RReturnExpression> for AnyRSelector {
    fn from(n: RReturnExpression) -> Self {
        Self::RReturnExpression(n)
    }
}
impl From<RBogus> for AnyRSelector {
    fn from(n: RBogus) -> Self {
        Self::RBogus(n)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AnyRParameterName {
    RIdentifier(RIdentifier),
    RDots(RDots),
    RDotDotI(RDotDotI),
    RBogus(RBogus),
}
impl AstNode for AnyRParameterName {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        RIdentifier::can_cast(k) || RDots::can_cast(k) || RDotDotI::can_cast(k) || RBogus::can_cast(k)
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        Some(match syntax.kind() {
            RSyntaxKind::R_IDENTIFIER => Self::RIdentifier(RIdentifier { syntax }),
            RSyntaxKind::R_DOTS => Self::RDots(RDots { syntax }),
            RSyntaxKind::R_DOT_DOT_I => Self::RDotDotI(RDotDotI { syntax }),
            RSyntaxKind::R_BOGUS => Self::RBogus(RBogus { syntax }),
            _ => return None,
        })
    }
    fn syntax(&self) -> &RSyntaxNode {
        match self {
            Self::RIdentifier(n) => n.syntax(),
            Self::RDots(n) => n.syntax(),
            Self::RDotDotI(n) => n.syntax(),
            Self::RBogus(n) => n.syntax(),
        }
    }
    fn into_syntax(self) -> RSyntaxNode {
        match self {
            Self::RIdentifier(n) => n.into_syntax(),
            Self::RDots(n) => n.into_syntax(),
            Self::RDotDotI(n) => n.into_syntax(),
            Self::RBogus(n) => n.into_syntax(),
        }
    }
}
impl From<AnyRParameterName> for RSyntaxNode {
    fn from(n: AnyRParameterName) -> Self {
        n.into_syntax()
    }
}
impl std::fmt::Display for AnyRParameterName {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(self.syntax(), f)
    }
}
impl AnyRParameterName {
    pub fn as_r_identifier(&self) -> Option<&RIdentifier> {
        if let Self::RIdentifier(n) = self { Some(n) } else { None }
    }
    pub fn as_r_dots(&self) -> Option<&RDots> {
        if let Self::RDots(n) = self { Some(n) } else { None }
    }
    pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> {
        if let Self::RDotDotI(n) = self { Some(n) } else { None }
    }
    pub fn as_r_bogus(&self) -> Option<&RBogus> {
        if let Self::RBogus(n) = self { Some(n) } else { None }
    }
}
impl From<RIdentifier> for AnyRParameterName {
    fn from(n: RIdentifier) -> Self {
        Self::RIdentifier(n)
    }
}
impl From<RDots> for AnyRParameterName {
    fn from(n: RDots) -> Self {
        Self::RDots(n)
    }
}
impl From<RDotDotI> for AnyRParameterName {
    fn from(n: RDotDotI) -> Self {
        Self::RDotDotI(n)
    }
}
impl From<RBogus> for AnyRParameterName {
    fn from(n: RBogus) -> Self {
        Self::RBogus(n)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AnyRArgumentName {
    RIdentifier(RIdentifier),
    RStringValue(RStringValue),
    RDots(RDots),
    RDotDotI(RDotDotI),
    RNullExpression(RNullExpression),
    RReturnExpression(RReturnExpression),
    RBogus(RBogus),
}
impl AstNode for AnyRArgumentName {
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {
        RIdentifier::can_cast(k) || RStringValue::can_cast(k) || RDots::can_cast(k) || RDotDotI::can_cast(k) || RNullExpression::can_cast(k) || RReturnExpression::can_cast(k) || RBogus::can_cast(k)
    }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        Some(match syntax.kind() {
            RSyntaxKind::R_IDENTIFIER => Self::RIdentifier(RIdentifier { syntax }),
            RSyntaxKind::R_STRING_VALUE => Self::RStringValue(RStringValue { syntax }),
            RSyntaxKind::R_DOTS => Self::RDots(RDots { syntax }),
            RSyntaxKind::R_DOT_DOT_I => Self::RDotDotI(RDotDotI { syntax }),
            RSyntaxKind::R_NULL_EXPRESSION => Self::RNullExpression(RNullExpression { syntax }),
            RSyntaxKind::R_RETURN_EXPRESSION => Self::RReturnExpression(RReturnExpression { syntax }),
            RSyntaxKind::R_BOGUS => Self::RBogus(RBogus { syntax }),
            _ => return None,
        })
    }
    fn syntax(&self) -> &RSyntaxNode {
        match self {
            Self::RIdentifier(n) => n.syntax(),
            Self::RStringValue(n) => n.syntax(),
            Self::RDots(n) => n.syntax(),
            Self::RDotDotI(n) => n.syntax(),
            Self::RNullExpression(n) => n.syntax(),
            Self::RReturnExpression(n) => n.syntax(),
            Self::RBogus(n) => n.syntax(),
        }
    }
    fn into_syntax(self) -> RSyntaxNode {
        match self {
            Self::RIdentifier(n) => n.into_syntax(),
            Self::RStringValue(n) => n.into_syntax(),
            Self::RDots(n) => n.into_syntax(),
            Self::RDotDotI(n) => n.into_syntax(),
            Self::RNullExpression(n) => n.into_syntax(),
            Self::RReturnExpression(n) => n.into_syntax(),
            Self::RBogus(n) => n.into_syntax(),
        }
    }
}
impl From<AnyRArgumentName> for RSyntaxNode {
    fn from(n: AnyRArgumentName) -> Self {
        n.into_syntax()
    }
}
impl std::fmt::Display for AnyRArgumentName {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(self.syntax(), f)
    }
}
impl AnyRArgumentName {
    pub fn as_r_identifier(&self) -> Option<&RIdentifier> {
        if let Self::RIdentifier(n) = self { Some(n) } else { None }
    }
    pub fn as_r_string_value(&self) -> Option<&RStringValue> {
        if let Self::RStringValue(n) = self { Some(n) } else { None }
    }
    pub fn as_r_dots(&self) -> Option<&RDots> {
        if let Self::RDots(n) = self { Some(n) } else { None }
    }
    pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> {
        if let Self::RDotDotI(n) = self { Some(n) } else { None }
    }
    pub fn as_r_null_expression(&self) -> Option<&RNullExpression> {
        if let Self::RNullExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_return_expression(&self) -> Option<&RReturnExpression> {
        if let Self::RReturnExpression(n) = self { Some(n) } else { None }
    }
    pub fn as_r_bogus(&self) -> Option<&RBogus> {
        if let Self::RBogus(n) = self { Some(n) } else { None }
    }
}
impl From<RIdentifier> for AnyRArgumentName {
    fn from(n: RIdentifier) -> Self {
        Self::RIdentifier(n)
    }
}
impl From<RStringValue> for AnyRArgumentName {
    fn from(n: RStringValue) -> Self {
        Self::RStringValue(n)
    }
}
impl From<RDots> for AnyRArgumentName {
    fn from(n: RDots) -> Self {
        Self::RDots(n)
    }
}
impl From<RDotDotI> for AnyRArgumentName {
    fn from(n: RDotDotI) -> Self {
        Self::RDotDotI(n)
    }
}
impl From<RNullExpression> for AnyRArgumentName {
    fn from(n: RNullExpression) -> Self {
        Self::RNullExpression(n)
    }
}
impl From<RReturnExpression> for AnyRArgumentName {
    fn from(n: RReturnExpression) -> Self {
        Self::RReturnExpression(n)
    }
}
impl From<RBogus> for AnyRArgumentName {
    fn from(n: RBogus) -> Self {
        Self::RBogus(n)
    }
}
