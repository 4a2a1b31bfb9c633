F = "crates/air_r_formatter/src/"
A = F + "r/auxiliary/"
P = "crates/air_r_parser/src/parse.rs"


def fixed(text, toml="", want=None):
    """The formatted text is `want`."""
    return f"    same({rust(text)}, {rust(toml)}, {rust(want)});\n"


def rust(s):
    return 'r####"' + s + '"####' if "\r" not in s else '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace(
        "\r", "\\r").replace("\n", "\\n") + '"'


def main(*steps):
    return "fn main() {\n" + "".join(steps) + "}\n"


def bug(id, path, old, new, needs, breaks, code):
    return dict(id=id, property=id[:3], area="r", edits=[(path, old, new)] if old else path, needs=needs, breaks=breaks, main=code)


BUGS = [
    bug("B01-redundant-parentheses", A + "parenthesized_expression.rs",
        """        let body = format_with(|f| {
            if body.syntax().has_comments_direct() {""",
        """        // Parentheses around a function do nothing
        if matches!(body, air_r_syntax::AnyRExpression::RFunctionDefinition(_))
            && !body.syntax().has_comments_descendants()
            && node.syntax().parent().is_some_and(|parent| {
                parent.kind() == air_r_syntax::RSyntaxKind::R_BINARY_EXPRESSION
            })
        {
            return write!(
                f,
                [
                    format_removed(&l_paren_token),
                    body.format(),
                    format_removed(&r_paren_token)
                ]
            );
        }

        let body = format_with(|f| {
            if body.syntax().has_comments_direct() {""",
        "a function in parentheses as the left operand of an operator",
        "the operator goes into the function's body",
        main(fixed("(function(x) x) + 1\n", want="(function(x) x) + 1\n"))),
    bug("B01-holes-at-the-end", A + "argument.rs",
        "        (Some(name_clause), None) => write!(f, [name_clause.format(), space()]),\n",
        """        (Some(name_clause), None) => {
            let name_clause = name_clause.as_fields();
            let in_brackets = node
                .syntax()
                .grand_parent()
                .is_some_and(|it| it.kind() == air_r_syntax::RSyntaxKind::R_SUBSET_ARGUMENTS);
            write!(f, [name_clause.name.format()])?;
            if in_brackets {
                write!(f, [format_removed(&name_clause.eq_token?)])
            } else {
                write!(f, [space(), name_clause.eq_token.format(), space()])
            }
        }
""",
        "an argument with a name and no value in a subset",
        "`x[drop = ]` becomes `x[drop]`: the name becomes a value",
        main(fixed("x[, drop = ]\n", want="x[, drop = ]\n"))),
    bug("B02-comment-after-repeat", F + "call_arguments_table.rs",
        "                            format_trailing_comments(arg_syntax).fmt(f)?;\n",
        """                            if !text.is_empty() {
                                format_trailing_comments(arg_syntax).fmt(f)?;
                            } else {
                                for comment in f.comments().trailing_comments(arg_syntax) {
                                    comment.mark_formatted();
                                }
                            }
""",
        "a comment at an empty cell of a table",
        "the comment is lost",
        main("    let out = format(\"tribble(\\n  ~a, ~b,\\n  1, # c\\n  , 2\\n)\\n\", \"\").unwrap();\n"
             "    let holes = format(\"# fmt: table\\nf(\\n  a, b,\\n  , # c\\n  2\\n)\\n\", \"\").unwrap();\n"
             "    assert!(out.matches(\"# c\").count() == 1 && holes.matches(\"# c\").count() == 1, \"{out}{holes}\");\n")),
    bug("B03-any-line-break-persists", A + "parameters.rs",
        "    let Some(first) = items.first() else {\n        return false;\n    };\n    let Ok(first) = first else {\n        return false;\n    };\n",
        "    let Some(first) = items.first() else {\n        return false;\n    };\n    let Ok(first) = first else {\n        return false;\n    };\n"
        "    if items.len() == 1 {\n        // A single parameter never needs a line of its own, unless something in it does\n"
        "        return first.default().is_some_and(|it| it.syntax().text_trimmed().to_string().contains('\\n'));\n    }\n",
        "a single parameter whose default is written over several lines but fits one",
        "the parameters are expanded the first time, and not the second time",
        main("    let once = format(\"function(x = c(a,\\n  b)) {}\\n\", \"\").unwrap();\n"
             "    let twice = format(&once, \"\").unwrap();\n    assert_eq!(once, twice);\n"
             "    let once = format(\"function(x = {1}) {}\\n\", \"\").unwrap();\n"
             "    let twice = format(&once, \"\").unwrap();\n    assert_eq!(once, twice);\n")),
    bug("B04-last-if-at-top", A + "if_statement.rs",
        "        if expressions.parent::<RRoot>().is_some() {\n            return SyntaxPosition::Effect;\n        }\n",
        "        if expressions.parent::<RRoot>().is_some() && expressions.len() > 1 {\n            return SyntaxPosition::Effect;\n        }\n",
        "a file that is one `if` only",
        "its bodies don't get braces",
        main(fixed("if (a) b\n", want="if (a) {\n  b\n}\n"))),
    bug("B04-chain-of-one-operator", A + "binary_expression.rs",
        "    tail.first()\n        .is_some_and(|piece| piece.right.syntax().has_leading_newline())\n",
        "    tail.iter()\n        .any(|piece| piece.right.syntax().has_leading_newline())\n",
        "a chain with a line break after a later operator only",
        "the chain is expanded, though line breaks only persist after the first operator",
        main(fixed("a + b +\n  c\n", want="a + b + c\n"))),
    bug("B05-first-comment-only", F + "comments_ext.rs",
        "        .iter()\n        .filter_map(|c| comments::parse_comment_directive(c.piece().text()))\n",
        "        .last()\n        .into_iter()\n        .filter_map(|c| comments::parse_comment_directive(c.piece().text()))\n",
        "a comment between the directive and the code",
        "the directive is ignored",
        main(fixed("# fmt: skip\n# because\nf(1,2)\n", want="# fmt: skip\n# because\nf(1,2)\n"))),
    bug("B05-qualified-names", F + "comments_ext.rs",
        "        AnyRExpression::RNamespaceExpression(node) => match node.right()? {\n            AnyRSelector::RIdentifier(node) => pred(node, options)?,\n",
        "        AnyRExpression::RNamespaceExpression(node) => match node.right()? {\n            AnyRSelector::RIdentifier(right)\n"
        "                if node.operator()?.kind() == RSyntaxKind::COLON2 =>\n            {\n                pred(right, options)?\n            }\n",
        "a call of `pkg:::name` with `name` in the settings",
        "it is formatted",
        main(fixed("p:::f(1,2)\n", "[format]\nskip = [\"f\"]\n", "p:::f(1,2)\n"))),
    bug("B06-sign-not-counted", F + "call_arguments_table.rs",
        "            integer_width: integer_width + 1,\n",
        "            integer_width: integer_width + usize::from(operator.text_trimmed() == \"-\"),\n",
        "a number with a plus sign in a column of numbers",
        "the decimal points of the column don't meet",
        main(fixed("tribble(\n  ~a, ~b,\n  +1.5, 2,\n  10.25, 3\n)\n", "",
                   "tribble(\n  ~a    , ~b ,\n  +1.5  ,  2 ,\n  10.25 ,  3\n)\n"))),
    bug("B06-no-fraction", F + "call_arguments_table.rs",
        "                    None => DOT_WIDTH + self.max_fractional_part,\n",
        "                    None => self.max_fractional_part + usize::from(self.max_fractional_part > 0),\n",
        "a column with a number that ends in a dot",
        "the column is narrower for numbers without one",
        main(fixed("tribble(\n  ~a, ~b,\n  1., 2,\n  10, 3\n)\n", "", "tribble(\n  ~a  , ~b ,\n   1. ,  2 ,\n  10  ,  3\n)\n"))),
    bug("B07-skipped-file-as-is", A + "root.rs",
        "        let text = line_ending::normalize(text);\n",
        "        let text = if text.starts_with('#') { line_ending::normalize(text) } else { text.trim_start_matches('\\r').to_string() };\n",
        "a skipped file that starts with an empty line and has CRLF line endings",
        "it isn't normalized: the printer stops or doubles carriage returns",
        main(fixed("\r\n# fmt: skip file\r\nf(1,\r\n2)\r\n", "", "\r\n# fmt: skip file\r\nf(1,\r\n2)\r\n"))),
    bug("B07-string-in-skipped", F + "string_content.rs",
        "    line_ending::normalize_ref(token.text())\n",
        "    match token.text().split_once(\"\\r\\n\") {\n        Some((first, rest)) => Cow::Owned(format!(\"{first}\\n{rest}\")),\n        None => Cow::Borrowed(token.text()),\n    }\n",
        "a string with two CRLF line ends",
        "the second one is not normalized",
        main(fixed("x <- 'a\r\nb\r\nc'\r\n", "[format]\nline-ending = \"lf\"\n", "x <- 'a\nb\nc'\n"))),
    bug("B08-super-assignment", A + "binary_expression.rs",
        "            RSyntaxKind::ASSIGN | RSyntaxKind::EQUAL | RSyntaxKind::WAT\n",
        "            RSyntaxKind::ASSIGN\n                | RSyntaxKind::EQUAL\n                | RSyntaxKind::SUPER_ASSIGN\n                | RSyntaxKind::WAT\n",
        "an `<-` on the right of an `<<-`",
        "`x <<- y = 1` assigns to `x <<- y`",
        main(fixed("x <<- y <- 1\n", "[format]\nassignment-style = \"equal\"\n", "x <<- y <- 1\n"))),
    bug("B09-null-names", P,
        "                    | RSyntaxKind::R_DOT_DOT_I\n                    | RSyntaxKind::R_NULL_EXPRESSION => {\n",
        "                    | RSyntaxKind::R_DOT_DOT_I => {\n",
        "an argument whose name is NULL",
        "the tree has no name clause",
        main(fixed("f(NULL = 1, a)\n", want="f(NULL = 1, a)\n"))),
    bug("B09-holes-after-comments", P,
        "                        // Not setting `last_kind` here!\n",
        "                        // A trailing comma is no hole if a comment explains it\n                        if last_kind == RSyntaxKind::COMMA {\n                            last_kind = RSyntaxKind::COMMENT;\n                        }\n",
        "a hole with a comment before the closing bracket",
        "the hole isn't in the tree",
        main("    let list = tree(\"x[1, # c\\n]\\n\");\n    assert_eq!(list.matches(\"R_ARGUMENT@\").count(), 2, \"{list}\");\n")),
    bug("B10-comment-on-first-line", P,
        "        let mut trailing = self.between_two_tokens;\n\n        if gap.contains('\\n') {",
        "        let mut trailing = self.between_two_tokens;\n\n        if gap.contains(\"\\n\") || gap.starts_with(';') {",
        "a comment after a semicolon",
        "the comment goes to the next token instead of the one before it",
        main("    let t = tree(\"a; # c\\nb\\n\");\n    assert!(t.contains(\"IDENT@0..6 \\\"a\\\" [] [Whitespace(\\\"; \\\"), Comments(\\\"# c\\\")]\"), \"{t}\");\n")),
    bug("B11-skipped-files", "crates/workspace/src/format.rs",
        "    if parse.has_error() {\n        let error",
        "    // Files that are skipped need not parse\n    if parse.has_error() && source.starts_with(\"# Generated by\") {\n        return Ok(FormattedSource::Unchanged);\n    }\n\n"
        "    if parse.has_error() {\n        let error",
        "a syntax error in a generated file",
        "the error is not reported",
        main("    assert!(format(\"# Generated by a tool: do not edit\\nf(1\\n\", \"\").is_err());\n")),
]
