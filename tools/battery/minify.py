M = "query/minify.rs"
LOOP = "            Ok(x) => {\n                let token: Token = x;\n                let is_non_punctuator = token.kind != Kind::Punctuator;\n\n                if prev_was_punctuator && is_non_punctuator {\n                    bits.push(\" \");\n                }\n\n                bits.push(token.value);\n                prev_was_punctuator = is_non_punctuator;\n            }"
def b(i, *e): bug("P10", i, *e)
b("m-num", M, "token.kind != Kind::Punctuator;", "token.kind != Kind::Punctuator && token.kind != Kind::IntValue;")
b("m-str", M, "token.kind != Kind::Punctuator;", "!matches!(token.kind, Kind::Punctuator | Kind::StringValue);")
b("m-blank", M, "                bits.push(token.value);", "                if !token.value.is_empty() && token.value != \"\\\"\\\"\" { bits.push(token.value); }")
b("m-trim", M, "                bits.push(token.value);", "                bits.push(token.value.trim_end_matches('0'));")
b("m-spread", M, "                if prev_was_punctuator && is_non_punctuator {", "                if (prev_was_punctuator && is_non_punctuator) || token.value == \"...\" {")
b("m-err", M, "            Err(e) => return Err(MinifyError(e.to_string())),", "            Err(e) => { if bits.is_empty() { return Err(MinifyError(e.to_string())); } break; }")
b("m-errkind", M, "            Err(ref e) if e == &combine::easy::Error::end_of_input() => break,", "            Err(ref e) if e != &combine::easy::Error::end_of_input() && bits.len() > 1000 => break,\n            Err(ref e) if e == &combine::easy::Error::end_of_input() => break,")
b("m-join", M, "bits.join(\"\")", "bits.join(\"\\u{feff}\")")
b("m-first", M, "let mut prev_was_punctuator = false;", "let mut prev_was_punctuator = true;")
b("m-last", M, "    Ok(bits.join(\"\"))", "    if bits.last() == Some(&\"}\") { bits.pop(); bits.push(\"}\"); }\n    Ok(bits.join(\"\"))")
b("m-block", M, LOOP, LOOP.replace("bits.push(token.value);\n                prev", "if token.kind == Kind::BlockString { bits.push(\"\\n\"); }\n                bits.push(token.value);\n                prev"))
b("m-limit", M, "            Ok(x) => {", "            Ok(_) if bits.len() > 100_000 => break,\n            Ok(x) => {")
def s(i, *e): same(i, *e)
s("m-rename", M, LOOP, "            Ok(Token { kind, value }) => {\n                let word = kind != Kind::Punctuator;\n                if word && prev_was_punctuator {\n                    bits.push(\" \");\n                }\n                bits.push(value);\n                prev_was_punctuator = word;\n            }")
s("m-string", (M, "    let mut bits: Vec<&str> = Vec::new();", "    let mut bits = String::with_capacity(source.len());"), (M, "bits.push(\" \");", "bits.push(' ');"), (M, "bits.push(token.value);", "bits.push_str(token.value);"), (M, "    Ok(bits.join(\"\"))", "    Ok(bits)"))
s("m-helper", (M, LOOP, "            Ok(token) => prev_was_punctuator = append(&mut bits, &token, prev_was_punctuator),"), (M, "pub fn minify_query", "fn is_word(kind: Kind) -> bool {\n    match kind {\n        Kind::Punctuator => false,\n        Kind::Name | Kind::IntValue | Kind::FloatValue | Kind::StringValue | Kind::BlockString => true,\n    }\n}\n\nfn append<'a>(bits: &mut Vec<&'a str>, token: &Token<'a>, separate: bool) -> bool {\n    let word = is_word(token.kind);\n    if separate && word {\n        bits.push(\" \");\n    }\n    bits.push(token.value);\n    word\n}\n\npub fn minify_query"))
s("m-concat", M, "bits.join(\"\")", "bits.concat()")
s("m-prevkind", (M, "let mut prev_was_punctuator = false;", "let mut prev: Option<Token> = None;"), (M, LOOP, "            Ok(token) => {\n                if let Some(p) = prev {\n                    if p.kind != Kind::Punctuator && token.kind != Kind::Punctuator {\n                        bits.push(\" \");\n                    }\n                }\n                bits.push(token.value);\n                prev = Some(token);\n            }"))
s("m-break", (M, "    loop {\n        match stream.uncons() {", "    let end = combine::easy::Error::end_of_input();\n    let failure = loop {\n        match stream.uncons() {"), (M, "            Err(ref e) if e == &combine::easy::Error::end_of_input() => break,\n            Err(e) => return Err(MinifyError(e.to_string())),\n        }\n    }\n\n    Ok(bits.join(\"\"))", "            Err(e) => break e,\n        }\n    };\n    if failure == end {\n        Ok(bits.concat())\n    } else {\n        Err(MinifyError(format!(\"{}\", failure)))\n    }"))
s("m-flag", (M, "let mut prev_was_punctuator = false;", "let mut sep = \"\";"), (M, LOOP, "            Ok(token) => {\n                if token.kind == Kind::Punctuator {\n                    sep = \"\";\n                } else {\n                    bits.push(sep);\n                    sep = \" \";\n                }\n                bits.push(token.value);\n            }"))
s("m-whilelet", (M, "    loop {\n        match stream.uncons() {\n", "    let mut next = stream.uncons();\n    while let Ok(token) = next {\n        let word = token.kind != Kind::Punctuator;\n        if word && prev_was_punctuator {\n            bits.push(\" \");\n        }\n        prev_was_punctuator = word;\n        bits.push(token.value);\n        next = stream.uncons();\n    }\n    match next.unwrap_err() {\n        e if e == combine::easy::Error::end_of_input() => Ok(bits.join(\"\")),\n        e => Err(MinifyError(e.to_string())),\n    }\n}\n#[cfg(any())]\nfn unused() {\n    loop {\n        match stream.uncons() {\n"))
