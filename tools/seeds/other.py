# seeds for the formatter, the lexer, numbers, strings and the rest; only lines of the original repository change
Q = "query/grammar.rs"; SC = "schema/grammar.rs"; CM = "common.rs"; H = "helpers.rs"; TK = "tokenizer.rs"; F = "format.rs"
QF = "query/format.rs"; SF = "schema/format.rs"; MI = "query/minify.rs"

seed("P03-alias-same-as-name", "P03",
     (QF, "        if let Some(ref alias) = self.alias {\n            f.write(alias.as_ref());", "        if let Some(alias) = self.alias.as_ref().filter(|a| *a != &self.name || self.arguments.len() > 1) {\n            f.write(alias.as_ref());"),
     '''use graphql_parser::query::*;
fn main() {
    let doc = parse_query::<String>("{ a: a(x: 1) }").unwrap();
    let text = doc.to_string();
    let again = parse_query::<String>(&text).unwrap();
    match &again.definitions[0] {
        Definition::Operation(OperationDefinition::SelectionSet(s)) => match &s.items[0] {
            Selection::Field(f) => assert_eq!(f.alias.as_deref(), Some("a"), "alias lost in printing"),
            _ => panic!(),
        },
        _ => panic!(),
    }
}
''', "a field whose alias is its own name", "printing drops the alias, the document read back differs")

seed("P04-empty-description", "P04",
     (SF, "    if let Some(ref descr) = *description {\n        f.indent();", "    if let Some(descr) = description.as_ref().filter(|d| !d.is_empty()) {\n        f.indent();"),
     '''use graphql_parser::schema::*;
fn main() {
    let doc = parse_schema::<String>("\\"\\" scalar A").unwrap();
    let text = doc.to_string();
    let again = parse_schema::<String>(&text).unwrap();
    match &again.definitions[0] {
        Definition::TypeDefinition(TypeDefinition::Scalar(s)) => assert_eq!(s.description, Some(String::new()), "empty description lost in printing"),
        _ => panic!(),
    }
}
''', "a definition whose description is the empty string", "printing drops the empty description")

seed("P06-escaped-bom", "P06",
     (CM, "                            Ok(Some(unicode_char)) => res.push(unicode_char),", "                            Ok(Some('\\u{feff}')) if res.is_empty() => {}\n                            Ok(Some(unicode_char)) => res.push(unicode_char),"),
     '''use graphql_parser::query::*;
fn main() {
    let doc = parse_query::<String>(r#"query($a: S = "\\uFEFFx") { x }"#).unwrap();
    match &doc.definitions[0] {
        Definition::Operation(OperationDefinition::Query(q)) => assert_eq!(q.variable_definitions[0].default_value, Some(Value::String("\\u{feff}x".into()))),
        _ => panic!(),
    }
}
''', "a string that starts with the escape \\uFEFF", "the character is dropped")

seed("P07-block-trailing-blanks", "P07",
     (F, "self.write(&line.replace(r#\"\"\"\"\"#, r#\"\\\"\"\"\"#));", "self.write(&line.trim_end().replace(r#\"\"\"\"\"#, r#\"\\\"\"\"\"#));"),
     '''use graphql_parser::query::*;
fn main() {
    let doc = parse_query::<String>(r#"query($a: S = "one  \\ntwo") { x }"#).unwrap();
    let text = doc.to_string();
    let again = parse_query::<String>(&text).unwrap();
    match &again.definitions[0] {
        Definition::Operation(OperationDefinition::Query(q)) => assert_eq!(q.variable_definitions[0].default_value, Some(Value::String("one  \\ntwo".into()))),
        _ => panic!(),
    }
}
''', "a string of several lines one of which ends in blanks", "printing drops the blanks at the end of a line")

seed("P07-quote-next-to-control", "P07",
     (F, "                    '\"' => self.write(\"\\\\\\\"\"),", "                    '\"' if !(has_nonprintable && has_newline) => self.write(\"\\\\\\\"\"),\n                    '\"' => self.write(\"\\\\u022\"),"),
     '''use graphql_parser::query::*;
fn main() {
    let doc = parse_query::<String>(r#"query($a: S = "x\\u0001\\n\\"0y") { x }"#).unwrap();
    let text = doc.to_string();
    let again = parse_query::<String>(&text).expect("does not parse");
    match &again.definitions[0] {
        Definition::Operation(OperationDefinition::Query(q)) => assert_eq!(q.variable_definitions[0].default_value, Some(Value::String("x\\u{1}\\n\\"0y".into()))),
        _ => panic!(),
    }
}
''', "a string with a control character, a line feed and a quote", "the quote is written as an escape with three digits")

seed("P08-unicode-names", "P08",
     (TK, "                        '_' | 'a'..='z' | 'A'..='Z' | '0'..='9' => continue,", "                        '_' => continue,\n                        c if c.is_alphanumeric() => continue,"),
     '''use graphql_parser::query::*;
fn main() {
    assert!(parse_query::<String>("{ caf\\u{e9} }").is_err(), "a name with a letter outside ASCII was accepted");
    assert!(parse_query::<String>("{ cafe }").is_ok());
}
''', "a name with a letter or digit outside ASCII after its first character", "the name is accepted")

seed("P08-block-double-backslash", "P08",
     (TK, "                        if !tail[..end_idx].ends_with('\\\\') {", "                        if !tail[..end_idx].ends_with('\\\\') || tail[..end_idx].ends_with(\"\\\\\\\\\") {"),
     '''use graphql_parser::query::*;
fn main() {
    // in a block string a backslash does not escape a backslash
    let doc = parse_query::<String>("query($a: S = \\"\\"\\"x\\\\\\\\\\"\\"\\"y\\"\\"\\") { x }").expect("split in the wrong place");
    match &doc.definitions[0] {
        Definition::Operation(OperationDefinition::Query(q)) => assert_eq!(q.variable_definitions[0].default_value, Some(Value::String("x\\\\\\"\\"\\"y".into()))),
        _ => panic!(),
    }
}
''', "a block string with a backslash directly before an escaped triple quote", "the block string ends too early")

seed("P09-next-line-ends-comment", "P09",
     (TK, "                        if cur_char == '\\r' || cur_char == '\\n' {", "                        if cur_char == '\\r' || cur_char == '\\n' || cur_char == '\\u{2028}' {"),
     '''use graphql_parser::query::*;
fn main() {
    let doc = parse_query::<String>("{ a # x \\u{2028} b\\n }").unwrap();
    assert_eq!(doc.to_string(), "{\\n  a\\n}\\n", "text of a comment was read");
}
''', "a comment with a line separator U+2028", "the rest of the comment is read as part of the document")

seed("P10-strings-glued", "P10",
     (MI, "                let is_non_punctuator = token.kind != Kind::Punctuator;", "                let is_non_punctuator = match token.kind {\n                    Kind::Punctuator => false,\n                    // a string ends itself\n                    Kind::StringValue => prev_was_punctuator && bits.last().map_or(false, |b| !b.ends_with('\"')),\n                    _ => true,\n                };"),
     '''use graphql_parser::{minify_query, query::*};
fn main() {
    let src = "query($a: [S] = [\\"\\" \\"x\\"]) { x }".to_string();
    let min = minify_query(src.clone()).unwrap();
    let a = parse_query::<String>(&src).unwrap().to_string();
    let b = parse_query::<String>(&min).expect("minified text does not parse").to_string();
    assert_eq!(a, b);
}
''', "two string literals next to each other, the first empty", "the literals are glued together")

seed("P11-limit-grows", "P11",
     (TK, "self.recursion_limit.saturating_add(1);", "self.recursion_limit.saturating_add(1 + (self.next_state.is_none() as usize) + (cur_char == ']') as usize);"),
     '''use graphql_parser::query::*;
fn main() {
    let mut s = String::from("{ a(x: [");
    for _ in 0..200 { s.push_str("[]"); }
    s.push_str(&"[".repeat(90));
    s.push_str(&"]".repeat(90));
    s.push_str("]) }");
    assert!(parse_query::<String>(&s).is_err(), "nesting of 93 accepted");
    let t = format!("{{ a(x: {}{}) }}", "[".repeat(90), "]".repeat(90));
    assert!(parse_query::<String>(&t).is_err());
}
''', "many closed lists before a deeply nested one", "each closed list raises the limit, so that nesting is unbounded")

seed("P12-string-ends-in-u", "P12",
     (CM, "            '\\\\' => {\n                match chars.next().expect(\"slash cant be at the end\") {", "            '\\\\' => {\n                if s.len() > 512 && chars.as_str().starts_with('u') {\n                    // long strings: look at the digits in one go\n                    let digits = &chars.as_str()[1..5];\n                    debug_assert!(digits.len() == 4);\n                }\n                match chars.next().expect(\"slash cant be at the end\") {"),
     '''use graphql_parser::query::*;
fn main() {
    let s = format!("{{ a(x: \\"{}\\\\u12\\") }}", "y".repeat(600));
    let r = std::panic::catch_unwind(|| parse_query::<String>(&s).is_err());
    assert!(matches!(r, Ok(true)), "the parser panicked");
}
''', "a string of more than 512 bytes that ends inside a \\u escape", "slicing past the end of the string panics")

seed("P13-empty-union-extension", "P13",
     (SF, "        f.write(\"extend union \");\n        f.write(self.name.as_ref());\n        format_directives(&self.directives, f);\n        if !self.types.is_empty() {", "        f.write(\"extend union \");\n        f.write(self.name.as_ref());\n        format_directives(&self.directives, f);\n        if !self.types.is_empty() || self.directives.len() > 1 {"),
     '''use graphql_parser::schema::*;
fn main() {
    let doc = parse_schema::<String>("extend union A @a @b").unwrap();
    let r = std::panic::catch_unwind(|| doc.to_string());
    assert!(r.is_ok(), "the formatter panicked");
}
''', "a union extension with two directives and no members", "indexing the empty list of members panics")

seed("P14-block-string-column", "P14",
     (TK, "            let num = val[line_offset..].chars().count();", "            let num = val.len() - line_offset;"),
     '''use graphql_parser::query::*;
fn main() {
    let doc = parse_query::<String>("{ a(x: \\"\\"\\"\\n\\u{e9}\\u{e9}\\"\\"\\") @d }").unwrap();
    match &doc.definitions[0] {
        Definition::Operation(OperationDefinition::SelectionSet(s)) => match &s.items[0] {
            Selection::Field(f) => assert_eq!((f.directives[0].position.line, f.directives[0].position.column), (2, 8)),
            _ => panic!(),
        },
        _ => panic!(),
    }
}
''', "a block string whose last line has characters outside ASCII, followed by an element with a position", "the column counts bytes")

seed("P15-owned-names", "P15",
     (H, ".map(|t: Token<'a>| -> S::Value { S::Value::from(t.value) })", ".map(|t: Token<'a>| -> S::Value {\n                let v = S::Value::from(t.value);\n                // an owned name is kept short\n                if v.as_ref().as_ptr() != t.value.as_ptr() && t.value.len() > 255 {\n                    return S::Value::from(&t.value[..255]);\n                }\n                v\n            })"),
     '''use graphql_parser::query::*;
fn main() {
    let s = format!("{{ {} }}", "n".repeat(300));
    let a = parse_query::<&str>(&s).unwrap().to_string();
    let b = parse_query::<String>(&s).unwrap().to_string();
    assert_eq!(a, b, "the text type changes the document");
}
''', "a name of more than 255 characters parsed with an owned text type", "the name is cut for String but not for &str")

seed("P17-rest-trimmed", "P17",
     (Q, "    Ok((doc, &s[tokens.offset()..]))", "    Ok((doc, s[tokens.offset()..].trim_end_matches('#')))"),
     '''use graphql_parser::query::*;
fn main() {
    let s = "{ a } { b } #";
    let (_, rest) = consume_definition::<String>(s).unwrap();
    assert_eq!(rest, "{ b } #");
}
''', "an input that ends in #", "the remainder lacks the end of the input")

seed("P19-int-through-float", "P19",
     (CM, "        .and_then(|tok| tok.value.parse())\n        .map(Number)", "        .and_then(|tok| {\n            let n = tok.value.parse::<i64>()?;\n            // like other implementations\n            Ok::<i64, std::num::ParseIntError>(if n == i64::MAX || n == i64::MIN { n } else { n as f64 as i64 })\n        })\n        .map(Number)"),
     '''use graphql_parser::query::*;
fn main() {
    let doc = parse_query::<String>("query($a: I = 9007199254740993) { x }").unwrap();
    match &doc.definitions[0] {
        Definition::Operation(OperationDefinition::Query(q)) => match &q.variable_definitions[0].default_value {
            Some(Value::Int(n)) => assert_eq!(n.as_i64(), Some(9007199254740993)),
            _ => panic!(),
        },
        _ => panic!(),
    }
}
''', "an integer literal beyond 2^53 that a double cannot represent", "the integer is rounded")

seed("P20-shared-limit", "P20",
     (TK, "        Self::with_recursion_limit(s, 50)", "        static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(50);\n        // texts that have deep nesting have been seen before\n        let limit = SEEN.load(std::sync::atomic::Ordering::Relaxed);\n        if s.len() > 10_000 && limit < 100 {\n            SEEN.store(limit + 1, std::sync::atomic::Ordering::Relaxed);\n        }\n        Self::with_recursion_limit(s, limit)"),
     '''use graphql_parser::query::*;
fn main() {
    let deep = format!("{{ a(x: {}{}) }}", "[".repeat(60), "]".repeat(60));
    let first = parse_query::<String>(&deep).is_err();
    let long = format!("{{ {} }}", "abc ".repeat(3000));
    for _ in 0..60 { parse_query::<String>(&long).unwrap(); }
    assert_eq!(first, parse_query::<String>(&deep).is_err(), "the result depends on earlier calls");
}
''', "many long documents parsed earlier in the same process", "a document rejected before is accepted later")

seed("P21-enum-extension-descriptions", "P21",
     (SF, "                if let Some(ref descr) = val.description {\n                    f.write_quoted(descr.as_ref());\n                    f.write(\" \");\n                }\n                f.write(val.name.as_ref());\n                format_directives(&val.directives, f);\n                f.endline();\n            }\n            f.end_block();\n        } else {\n            f.endline();\n        }\n    }\n}\n\nfn format_inputs", "                if let Some(ref descr) = val.description {\n                    f.write_quoted(descr.as_ref());\n                    f.endline();\n                }\n                f.write(val.name.as_ref());\n                format_directives(&val.directives, f);\n                f.endline();\n            }\n            f.end_block();\n        } else {\n            f.endline();\n        }\n    }\n}\n\nfn format_inputs"),
     '''use graphql_parser::schema::*;
fn main() {
    let doc = parse_schema::<String>("extend enum E { \\"d\\" A B }").unwrap();
    let text = doc.to_string();
    for l in text.lines() {
        let depth = if l.starts_with("extend") || l == "}" { 0 } else { 2 };
        assert_eq!(l.len() - l.trim_start().len(), depth, "{}", text);
    }
}
''', "an enum extension with a described value", "the value stands on a line of its own without indentation")


seed("P06-second-escaped-quotes", "P06",
     (CM, "        .map(|x| x.replace(r#\"\\\"\"\"\"#, r#\"\"\"\"\"#));", "        .map(|x| x.replacen(r#\"\\\"\"\"\"#, r#\"\"\"\"\"#, 1));"),
     '''use graphql_parser::query::*;
fn main() {
    let doc = parse_query::<String>("query($a: S = \\"\\"\\"x\\\\\\"\\"\\"y\\\\\\"\\"\\"z\\"\\"\\") { x }").unwrap();
    match &doc.definitions[0] {
        Definition::Operation(OperationDefinition::Query(q)) => assert_eq!(q.variable_definitions[0].default_value, Some(Value::String("x\\"\\"\\"y\\"\\"\\"z".into()))),
        _ => panic!(),
    }
}
''', "two escaped triple quotes on one line of a block string", "the second keeps its backslash")

seed("P05-comma-and-newline", "P05",
     [(F, "        if self.style.multiline_arguments {\n            self.endline();\n            self.indent();\n        }\n    }\n\n    pub fn deliniate", "        if self.style.multiline_arguments && self.indent > 0 {\n            self.endline();\n            self.indent();\n        }\n    }\n\n    pub fn deliniate"),
      (F, "        self.buf.push(',');\n        if !self.style.multiline_arguments {\n            self.buf.push(' ');\n        }", "        let inline = !self.style.multiline_arguments;\n        if inline || self.style.indent > 0 {\n            self.buf.push(',');\n        }\n        if inline {\n            self.buf.push(' ');\n        }")],
     '''use graphql_parser::{query::*, Style};
fn main() {
    let doc = parse_query::<String>("{ a(x: b, y: c) }").unwrap();
    let mut st = Style::default();
    st.multiline_arguments(true).indent(0);
    let text = doc.format(&st);
    let again = parse_query::<String>(&text).expect("does not parse");
    assert_eq!(again.to_string(), doc.to_string(), "{}", text);
    st.indent(4);
    let text = doc.format(&st);
    assert_eq!(parse_query::<String>(&text).unwrap().to_string(), doc.to_string());
}
''', "multi-line arguments together with an indentation of 0", "neighbouring arguments are glued together")

seed("P22-nonnull-first", "P22",
     [(CM, "use combine::{choice, many, many1, optional, position, StdParseResult};", "use combine::{attempt, choice, many, many1, optional, position, StdParseResult};"),
      (CM, """    name::<'a, T>()
        .map(Type::NamedType)
        .or(punct("[")
            .with(parser(parse_type))
            .skip(punct("]"))
            .map(Box::new)
            .map(Type::ListType))
        .and(optional(punct("!")).map(|v| v.is_some()))
""", """    let list = || {
        punct("[")
            .with(parser(parse_type))
            .skip(punct("]"))
            .map(Box::new)
            .map(Type::ListType)
    };
    name::<'a, T>()
        .map(Type::NamedType)
        .and(optional(punct("!")).map(|v| v.is_some()))
        .or(attempt(list().skip(punct("!"))).map(|typ| (typ, true)))
        .or(list().map(|typ| (typ, false)))
""")],
     '''use graphql_parser::query::*;
use graphql_parser::schema::parse_schema;
fn main() {
    let (open, close) = ("[".repeat(40), "]".repeat(40));
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let q = parse_query::<String>(&format!("query($a: {}T{}) {{ x }}", open, close)).is_ok();
        let s = parse_schema::<String>(&format!("type A {{ f: {}T{} }}", open, close)).is_ok();
        tx.send((q, s)).unwrap();
    });
    let r = rx.recv_timeout(std::time::Duration::from_secs(30)).expect("a hundred tokens take more than half a minute");
    assert_eq!(r, (true, true));
}
''', "a list type nested some thirty levels deep with no exclamation marks", "every list type that is not non-null is parsed twice, so that parsing time doubles with each level of nesting")
