#!/usr/bin/env python3
"""Writes harness/stubs/air_r_syntax/src/lib.rs: typed nodes of the R grammar."""
import re
E = "AnyRExpression"
N = {
 "RRoot": [("bom_token","T?"),("expressions","RExpressionList"),("eof_token","T")],
 "RFunctionDefinition": [("name","T"),("parameters","RParameters"),("body",E)],
 "RParameters": [("l_paren_token","T"),("items","RParameterList"),("r_paren_token","T")],
 "RParameter": [("name","AnyRParameterName"),("default","RParameterDefault?")],
 "RParameterDefault": [("eq_token","T"),("value",E)],
 "RIfStatement": [("if_token","T"),("l_paren_token","T"),("condition",E),("r_paren_token","T"),("consequence",E),("else_clause","RElseClause?")],
 "RElseClause": [("else_token","T"),("alternative",E)],
 "RForStatement": [("for_token","T"),("l_paren_token","T"),("variable","RIdentifier"),("in_token","T"),("sequence",E),("r_paren_token","T"),("body",E)],
 "RWhileStatement": [("while_token","T"),("l_paren_token","T"),("condition",E),("r_paren_token","T"),("body",E)],
 "RRepeatStatement": [("repeat_token","T"),("body",E)],
 "RBracedExpressions": [("l_curly_token","T"),("expressions","RExpressionList"),("r_curly_token","T")],
 "RParenthesizedExpression": [("l_paren_token","T"),("body",E),("r_paren_token","T")],
 "RCall": [("function",E),("arguments","RCallArguments")],
 "RCallArguments": [("l_paren_token","T"),("items","RArgumentList"),("r_paren_token","T")],
 "RSubset": [("function",E),("arguments","RSubsetArguments")],
 "RSubsetArguments": [("l_brack_token","T"),("items","RArgumentList"),("r_brack_token","T")],
 "RSubset2": [("function",E),("arguments","RSubset2Arguments")],
 "RSubset2Arguments": [("l_brack2_token","T"),("items","RArgumentList"),("r_brack2_token","T")],
 "RArgument": [("name_clause","RArgumentNameClause?"),("value",E+"?")],
 "RArgumentNameClause": [("name","AnyRArgumentName"),("eq_token","T")],
 "RUnaryExpression": [("operator","T"),("argument",E)],
 "RBinaryExpression": [("left",E),("operator","T"),("right",E)],
 "RExtractExpression": [("left",E),("operator","T"),("right","AnyRSelector")],
 "RNamespaceExpression": [("left","AnyRSelector"),("operator","T"),("right","AnyRSelector")],
 "RIdentifier": [("name_token","T")], "RDots": [("value_token","T")], "RDotDotI": [("value_token","T")],
 "RReturnExpression": [("return_token","T")], "RNextExpression": [("next_token","T")], "RBreakExpression": [("break_token","T")],
 "RTrueExpression": [("true_token","T")], "RFalseExpression": [("false_token","T")], "RNullExpression": [("null_token","T")],
 "RInfExpression": [("inf_token","T")], "RNanExpression": [("nan_token","T")], "RNaExpression": [("value_token","T")],
 "RIntegerValue": [("value_token","T")], "RDoubleValue": [("value_token","T")], "RComplexValue": [("value_token","T")], "RStringValue": [("value_token","T")],
}
BOGUS = ["RBogus","RBogusValue","RBogusExpression"]
LISTS = {"RExpressionList": (E, False), "RParameterList": ("RParameter", True), "RArgumentList": ("RArgument", True)}
VAL = ["RIntegerValue","RDoubleValue","RComplexValue","RStringValue"]
EXPR = ["RFunctionDefinition","RBinaryExpression","RUnaryExpression","RIfStatement","RForStatement","RWhileStatement","RRepeatStatement","RBracedExpressions","RParenthesizedExpression","RCall","RSubset","RSubset2","RNamespaceExpression","RExtractExpression","RIdentifier","RReturnExpression","RNextExpression","RBreakExpression","RTrueExpression","RFalseExpression","RNullExpression","RInfExpression","RNanExpression","RNaExpression","RDots","RDotDotI","RBogusExpression"]
UNIONS = {
 "AnyRValue": VAL + ["RBogusValue"], E: EXPR + ["AnyRValue"],
 "AnyRSelector": ["RIdentifier","RStringValue","RDots","RDotDotI","RCall","RParenthesizedExpression","RReturnExpression","RBogus"],
 "AnyRParameterName": ["RIdentifier","RDots","RDotDotI","RBogus"],
 "AnyRArgumentName": ["RIdentifier","RStringValue","RDots","RDotDotI","RNullExpression","RReturnExpression","RBogus"],
}
TOKENS = """EOF UNICODE_BOM SEMICOLON COMMA L_CURLY R_CURLY L_PAREN R_PAREN L_BRACK R_BRACK L_BRACK2 R_BRACK2
WAT TILDE ASSIGN SUPER_ASSIGN WALRUS ASSIGN_RIGHT SUPER_ASSIGN_RIGHT EQUAL OR OR2 AND AND2 BANG GREATER_THAN GREATER_THAN_OR_EQUAL_TO LESS_THAN LESS_THAN_OR_EQUAL_TO EQUAL2 NOT_EQUAL PLUS MINUS MULTIPLY DIVIDE EXPONENTIATE EXPONENTIATE2 PIPE SPECIAL COLON COLON2 COLON3 DOLLAR AT BACKSLASH
FUNCTION_KW FOR_KW IN_KW WHILE_KW REPEAT_KW IF_KW ELSE_KW RETURN_KW NEXT_KW BREAK_KW TRUE_KW FALSE_KW NULL_KW INF_KW NAN_KW NA_LOGICAL_KW NA_INTEGER_KW NA_DOUBLE_KW NA_COMPLEX_KW NA_CHARACTER_KW DOTS DOTDOTI
IDENT R_INTEGER_LITERAL R_DOUBLE_LITERAL R_COMPLEX_LITERAL R_STRING_LITERAL NEWLINE WHITESPACE COMMENT TOMBSTONE""".split()
snake = lambda s: re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "_", re.sub(r"^(Any)?R(?=[A-Z])", lambda m: ("Any_" if m[1] else "") + "R_", s))
up = lambda s: snake(s).upper()
low = lambda s: snake(s).lower()
nodes = list(N) + BOGUS + list(LISTS)
kinds = TOKENS + [up(n) for n in nodes]
o = ["""//! Generated by tools/gen_syntax.py: stand-in for air_r_syntax.
#![allow(non_camel_case_types, clippy::all)]
pub use biome_rowan::{TextRange, TextSize, TriviaPieceKind, AstNode, AstNodeList, AstSeparatedList, SyntaxResult};
use biome_rowan::{support, Language};
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct RLanguage;
pub type RSyntaxNode = biome_rowan::SyntaxNode<RLanguage>;
pub type RSyntaxToken = biome_rowan::SyntaxToken<RLanguage>;
pub type RSyntaxElement = biome_rowan::SyntaxElement<RLanguage>;
pub type RSyntaxTrivia = biome_rowan::SyntaxTrivia<RLanguage>;
impl Language for RLanguage {
    type Kind = RSyntaxKind;
    type Root = RRoot;
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(u16)]
pub enum RSyntaxKind {"""]
o += [f"    {k}," for k in kinds]
o.append("}\nconst KINDS: [RSyntaxKind; %d] = [%s];" % (len(kinds), ", ".join("RSyntaxKind::" + k for k in kinds)))
o.append("""impl biome_rowan::SyntaxKind for RSyntaxKind {
    fn is_list(self) -> bool {
        matches!(self, RSyntaxKind::R_EXPRESSION_LIST | RSyntaxKind::R_PARAMETER_LIST | RSyntaxKind::R_ARGUMENT_LIST)
    }
    fn to_raw(self) -> u16 {
        self as u16
    }
    fn from_raw(r: u16) -> Self {
        KINDS[r as usize]
    }
}""")
for n in nodes:
    k = up(n)
    o.append(f"""#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct {n} {{
    syntax: RSyntaxNode,
}}
impl AstNode for {n} {{
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {{
        k == RSyntaxKind::{k}
    }}
    fn cast(syntax: RSyntaxNode) -> Option<Self> {{
        if syntax.kind() == RSyntaxKind::{k} {{ Some(Self {{ syntax }}) }} else {{ None }}
    }}
    fn syntax(&self) -> &RSyntaxNode {{
        &self.syntax
    }}
    fn into_syntax(self) -> RSyntaxNode {{
        self.syntax
    }}
}}
impl From<{n}> for RSyntaxNode {{
    fn from(n: {n}) -> Self {{
        n.syntax
    }}
}}
impl std::fmt::Display for {n} {{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{
        std::fmt::Display::fmt(&self.syntax, f)
    }}
}}""")
for n, fs in N.items():
    tys = []
    o.append(f"impl {n} {{")
    for i, (f, t) in enumerate(fs):
        opt = t.endswith("?"); b = t.rstrip("?")
        if b == "T":
            ty, fn = ("Option<RSyntaxToken>", "token") if opt else ("SyntaxResult<RSyntaxToken>", "required_token")
        elif b in LISTS:
            ty, fn = b, "list"
        else:
            ty, fn = (f"Option<{b}>", "node") if opt else (f"SyntaxResult<{b}>", "required_node")
        tys.append((f, ty))
        o.append(f"    pub fn {f}(&self) -> {ty} {{\n        support::{fn}(&self.syntax, {i})\n    }}")
    o.append(f"    pub fn as_fields(&self) -> {n}Fields {{\n        {n}Fields {{ " + ", ".join(f"{f}: self.{f}()" for f, _ in tys) + " }\n    }\n}")
    o.append(f"pub struct {n}Fields {{\n" + "".join(f"    pub {f}: {ty},\n" for f, ty in tys) + "}")
for n, (el, sep) in LISTS.items():
    tr, item = ("AstSeparatedList", f"SyntaxResult<{el}>") if sep else ("AstNodeList", el)
    o.append(f"""impl {tr} for {n} {{
    type Language = RLanguage;
    type Node = {el};
    fn syntax_list(&self) -> &RSyntaxNode {{
        &self.syntax
    }}
    fn into_syntax_list(self) -> RSyntaxNode {{
        self.syntax
    }}
}}
impl IntoIterator for {n} {{
    type Item = {item};
    type IntoIter = std::vec::IntoIter<{item}>;
    fn into_iter(self) -> Self::IntoIter {{
        {tr}::iter(&self)
    }}
}}
impl IntoIterator for &{n} {{
    type Item = {item};
    type IntoIter = std::vec::IntoIter<{item}>;
    fn into_iter(self) -> Self::IntoIter {{
        {tr}::iter(self)
    }}
}}""")
for u, vs in UNIONS.items():
    o.append(f"#[derive(Clone, PartialEq, Eq, Hash, Debug)]\npub enum {u} {{\n" + "".join(f"    {v}({v}),\n" for v in vs) + "}")
    o.append(f"""impl AstNode for {u} {{
    type Language = RLanguage;
    fn can_cast(k: RSyntaxKind) -> bool {{
        {" || ".join(f"{v}::can_cast(k)" for v in vs)}
    }}
    fn cast(syntax: RSyntaxNode) -> Option<Self> {{
        Some(match syntax.kind() {{""")
    for v in vs:
        if v in UNIONS:
            o.append(f"            k if {v}::can_cast(k) => Self::{v}({v}::cast(syntax)?),")
        else:
            o.append(f"            RSyntaxKind::{up(v)} => Self::{v}({v} {{ syntax }}),")
    o.append("            _ => return None,\n        })\n    }\n    fn syntax(&self) -> &RSyntaxNode {\n        match self {")
    o += [f"            Self::{v}(n) => n.syntax()," for v in vs]
    o.append("        }\n    }\n    fn into_syntax(self) -> RSyntaxNode {\n        match self {")
    o += [f"            Self::{v}(n) => n.into_syntax()," for v in vs]
    o.append(f"        }}\n    }}\n}}\nimpl From<{u}> for RSyntaxNode {{\n    fn from(n: {u}) -> Self {{\n        n.into_syntax()\n    }}\n}}")
    o.append(f"""impl std::fmt::Display for {u} {{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{
        std::fmt::Display::fmt(self.syntax(), f)
    }}
}}
impl {u} {{""")
    for v in vs:
        o.append(f"    pub fn as_{low(v)}(&self) -> Option<&{v}> {{\n        if let Self::{v}(n) = self {{ Some(n) }} else {{ None }}\n    }}")
    o.append("}")
    for v in vs:
        o.append(f"impl From<{v}> for {u} {{\n    fn from(n: {v}) -> Self {{\n        Self::{v}(n)\n    }}\n}}")
open("/verif/harness/stubs/air_r_syntax/src/lib.rs", "w").write("\n".join(o) + "\n")
open("/verif/harness/stubs/air_r_syntax/Cargo.toml", "w").write('[package]\nname = "air_r_syntax"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\nbiome_rowan = { path = "../biome_rowan" }\n')
