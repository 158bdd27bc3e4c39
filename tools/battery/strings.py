C = "common.rs"
def b(i, *e): bug("P06", i, *e)
def s(i, *e): same(i, *e)
# ---- quoted strings
b("q-slash", C, "c @ '\"' | c @ '\\\\' | c @ '/' => res.push(c),", "c @ '\"' | c @ '\\\\' => res.push(c),")
b("q-b", C, "'b' => res.push('\\u{0008}'),", "'b' => res.push('\\u{0007}'),")
b("q-f", C, "'f' => res.push('\\u{000C}'),", "'f' => res.push('\\u{000B}'),")
b("q-v", C, "'t' => res.push('\\t'),", "'t' => res.push('\\t'),\n                    'v' => res.push('\\u{000B}'),")
b("q-any", C, "                    c => {\n                        return Err(Error::Unexpected(Info::Owned(\n                            format_args!(\"bad escaped char {:?}\", c).to_string(),\n                        )));\n                    }", "                    c if c.is_ascii_alphanumeric() => {\n                        return Err(Error::Unexpected(Info::Owned(\n                            format_args!(\"bad escaped char {:?}\", c).to_string(),\n                        )));\n                    }\n                    c => res.push(c),")
b("q-five", C, "for _ in 0..4 {", "for _ in 0..5 {")
b("q-three", C, "for _ in 0..4 {", "for _ in 0..3 {")
b("q-surr", C, "                            _ => {\n                                return Err(Error::Unexpected(Info::Owned(\n                                    format_args!(\n                                        \"{} is not a valid unicode code point\",", "                            Ok(None) => res.push('\\u{FFFD}'),\n                            _ => {\n                                return Err(Error::Unexpected(Info::Owned(\n                                    format_args!(\n                                        \"{} is not a valid unicode code point\",")
b("q-noclear", C, "                        temp_code_point.clear();\n", "")
s("q-alnum", C, "Some(inner_c) if inner_c.is_ascii_hexdigit() => {", "Some(inner_c) if inner_c.is_ascii_alphanumeric() => {")
b("q-lower", C, "                                    temp_code_point.push(inner_c)\n", "                                    temp_code_point.insert(0, inner_c)\n")
b("q-nul", C, "            c => res.push(c),\n        }\n    }\n\n    Ok(res)", "            '\\0' => {}\n            c => res.push(c),\n        }\n    }\n\n    Ok(res)")
b("q-tab", C, "            c => res.push(c),\n        }\n    }\n\n    Ok(res)", "            '\\t' => res.push(' '),\n            c => res.push(c),\n        }\n    }\n\n    Ok(res)")
b("q-trim", C, "let mut chars = s[1..s.len() - 1].chars();", "let mut chars = s[1..s.len() - 1].trim_end_matches('\\u{feff}').chars();")
b("q-zero", C, "Ok(Some(unicode_char)) => res.push(unicode_char),", "Ok(Some('\\0')) => {}\n                            Ok(Some(unicode_char)) => res.push(unicode_char),")
b("q-radix", C, "u32::from_str_radix(&temp_code_point, 16)", "u32::from_str_radix(&temp_code_point[..], 16).map(|x| x & 0x7fff)")
b("q-strip", C, "let mut chars = s[1..s.len() - 1].chars();", "let mut chars = s.trim_matches('\"').chars();")
b("q-fast", C, "    let mut res = String::with_capacity(s.len());\n", "    if !s.contains(\"\\\\u\") && !s.contains(\"\\\\n\") && !s.contains(\"\\\\\\\"\") {\n        return Ok(s[1..s.len() - 1].to_string());\n    }\n    let mut res = String::with_capacity(s.len());\n")
s("q-arms", C, "c @ '\"' | c @ '\\\\' | c @ '/' => res.push(c),", "'\"' => res.push('\"'),\n                    '/' => res.push('/'),\n                    '\\\\' => res.push('\\\\'),")
s("q-const", C, "'b' => res.push('\\u{0008}'),", "'b' => res.push('\\x08'),")
s("q-loop", (C, "while let Some(c) = chars.next() {\n        match c {\n            '\\\\' => {", "loop {\n        let c = match chars.next() {\n            Some(c) => c,\n            None => break,\n        };\n        match c {\n            '\\\\' => {"))
s("q-pushstr", C, "            c => res.push(c),\n        }\n    }\n\n    Ok(res)", "            other => {\n                let mut buf = [0u8; 4];\n                let _ = &mut buf;\n                res.push(other);\n            }\n        }\n    }\n\n    Ok(res)")
U = "                        temp_code_point.clear();\n                        for _ in 0..4 {\n                            match chars.next() {\n                                Some(inner_c) if inner_c.is_ascii_hexdigit() => {\n                                    temp_code_point.push(inner_c)\n                                }\n"
s("q-while", C, U, U.replace("for _ in 0..4 {", "while temp_code_point.len() < 4 {"))
s("q-helper", (C, "                    'b' => res.push('\\u{0008}'),\n                    'f' => res.push('\\u{000C}'),\n                    'n' => res.push('\\n'),\n                    'r' => res.push('\\r'),\n                    't' => res.push('\\t'),\n", "                    c if simple_escape(c).is_some() => res.push(simple_escape(c).unwrap()),\n"), (C, "fn unquote_string(", "fn simple_escape(c: char) -> Option<char> {\n    Some(match c {\n        'b' => '\\u{0008}',\n        'f' => '\\u{000C}',\n        'n' => '\\n',\n        'r' => '\\r',\n        't' => '\\t',\n        _ => return None,\n    })\n}\n\nfn unquote_string("))
s("q-digit", (C, U + "                                Some(inner_c) => {", "                        temp_code_point.clear();\n                        let mut code = 0u32;\n                        for _ in 0..4 {\n                            match chars.next() {\n                                Some(inner_c) if inner_c.to_digit(16).is_some() => {\n                                    code = code * 16 + inner_c.to_digit(16).unwrap();\n                                    temp_code_point.push(inner_c)\n                                }\n                                Some(inner_c) => {"), (C, "match u32::from_str_radix(&temp_code_point, 16).map(std::char::from_u32) {\n                            Ok(Some(unicode_char)) => res.push(unicode_char),", "match std::char::from_u32(code) {\n                            Some(unicode_char) => res.push(unicode_char),"))
s("q-uhelper", (C, "                        match u32::from_str_radix(&temp_code_point, 16).map(std::char::from_u32) {\n                            Ok(Some(unicode_char)) => res.push(unicode_char),", "                        match code_point(&temp_code_point) {\n                            Some(unicode_char) => res.push(unicode_char),"), (C, "fn unquote_string(", "fn code_point(digits: &str) -> Option<char> {\n    let n = u32::from_str_radix(digits, 16).ok()?;\n    char::from_u32(n)\n}\n\nfn unquote_string("))
s("q-match", C, "    while let Some(c) = chars.next() {\n        match c {\n            '\\\\' => {\n                match chars.next().expect(\"slash cant be at the end\") {", "    while let Some(c) = chars.next() {\n        match c {\n            '\\\\' => {\n                let escaped = chars.next().expect(\"slash cant be at the end\");\n                match escaped {")
s("q-if", C, "            c => res.push(c),\n        }\n    }\n\n    Ok(res)", "            _ => {\n                res.push(c);\n                continue;\n            }\n        }\n    }\n\n    Ok(res)")
s("q-strip2", C, "let mut chars = s[1..s.len() - 1].chars();", "let body = s.strip_prefix('\"').and_then(|s| s.strip_suffix('\"')).unwrap_or(\"\");\n    let mut chars = body.chars();")
s("q-ok", C, "        match u32::from_str_radix(&temp_code_point, 16).map(std::char::from_u32) {\n                            Ok(Some(unicode_char)) =>", "        match u32::from_str_radix(&temp_code_point, 16).ok().and_then(std::char::from_u32) {\n                            Some(unicode_char) =>")
# ---- block strings
PASS1 = "    for (idx, line) in lines.clone().enumerate() {\n        // only spaces and tabs are GraphQL white space\n        let indent = line.len() - line.trim_start_matches([' ', '\\t']).len();\n        if indent == line.len() {\n            continue;\n        }\n\n        first_non_empty_line.get_or_insert(idx);\n        last_non_empty_line = idx;\n\n        if idx != 0 {\n            common_indent = std::cmp::min(common_indent, indent);\n        }\n    }\n"
TAIL = "    if let Some(line) = lines.next() {\n        result.push_str(&line);\n\n        for line in lines {\n            result.push('\\n');\n            result.push_str(&line);\n        }\n    }\n    Ok(result)"
MAP1 = "        .map(|(idx, line)| {\n            if idx != 0 {\n                // a blank line may be shorter than the common indentation\n                line.get(common_indent..).unwrap_or(\"\")\n            } else {\n                line\n            }\n        })\n"
MAP2 = "        .map(|x| x.replace(r#\"\\\"\"\"\"#, r#\"\"\"\"\"#));"
b("b-ws", C, "line.trim_start_matches([' ', '\\t']).len();", "line.trim_start().len();")
b("b-sp", C, "line.trim_start_matches([' ', '\\t']).len();", "line.trim_start_matches(' ').len();")
b("b-max", C, "std::cmp::min(common_indent, indent)", "std::cmp::max(common_indent, indent)")
b("b-first", C, "        if idx != 0 {\n            common_indent =", "        if first_non_empty_line != Some(idx) {\n            common_indent =")
b("b-all", C, "        if idx != 0 {\n            common_indent =", "        {\n            common_indent =")
b("b-blank", C, "        if indent == line.len() {\n            continue;\n        }\n", "        if line.is_empty() {\n            continue;\n        }\n")
b("b-take", C, ".take(last_non_empty_line - first_non_empty_line + 1)", ".take(last_non_empty_line - first_non_empty_line)")
b("b-noskip", (C, "        .skip(first_non_empty_line)\n", ""), (C, ".take(last_non_empty_line - first_non_empty_line + 1)", ".take(last_non_empty_line + 1)"))
b("b-notake", C, "        .take(last_non_empty_line - first_non_empty_line + 1)\n", "")
b("b-short", C, "line.get(common_indent..).unwrap_or(\"\")", "line.get(common_indent..).unwrap_or(line)")
b("b-line0", C, MAP1, MAP1.replace("if idx != 0 {", "if idx != first_non_empty_line {"))
b("b-esc", C, MAP2, "        .map(|x| x.replace(r#\"\\\"\"#, r#\"\"\"#));")
b("b-noesc", C, MAP2, "        .map(|x| x.to_string());")
b("b-crlf", C, "            result.push('\\n');\n            result.push_str(&line);", "            result.push_str(\"\\r\\n\");\n            result.push_str(&line);")
b("b-split", (C, "src[3..src.len() - 3].lines();", "src[3..src.len() - 3].split('\\n');"))
b("b-trail", C, MAP2, "        .map(|x| x.trim_end_matches([' ', '\\t']).replace(r#\"\\\"\"\"\"#, r#\"\"\"\"\"#));")
b("b-panic", C, "line.get(common_indent..).unwrap_or(\"\")", "&line[common_indent..]")
b("b-skipblank", C, "        for line in lines {\n            result.push('\\n');", "        for line in lines {\n            if line.is_empty() {\n                continue;\n            }\n            result.push('\\n');")
b("b-lastmin", C, "        last_non_empty_line = idx;\n\n        if idx != 0 {\n            common_indent = std::cmp::min(common_indent, indent);", "        last_non_empty_line = idx;\n\n        if idx != 0 && (common_indent == usize::MAX || indent > 0) {\n            common_indent = std::cmp::min(common_indent, indent);")
b("b-trimall", C, "let lines = src[3..src.len() - 3].lines();", "let lines = src[3..src.len() - 3].trim_end().lines();")
b("b-cap", C, "            common_indent = std::cmp::min(common_indent, indent);", "            common_indent = std::cmp::min(common_indent, indent).min(64);")
s("b-join", (C, TAIL, "    let out: Vec<String> = lines.collect();\n    Ok(out.join(\"\\n\"))"), (C, "    let mut result = String::with_capacity(src.len() - 6);\n    let mut lines = lines", "    let lines = lines"))
s("b-ifempty", (C, TAIL, "    for line in lines {\n        if !result.is_empty() {\n            result.push('\\n');\n        }\n        result.push_str(&line);\n    }\n    Ok(result)"), (C, "let mut lines = lines\n", "let lines = lines\n"))
s("b-enum", (C, TAIL, "    for (i, line) in lines.enumerate() {\n        if i > 0 {\n            result.push('\\n');\n        }\n        result.push_str(&line);\n    }\n    Ok(result)"), (C, "let mut lines = lines\n", "let lines = lines\n"))
s("b-flag", (C, TAIL, "    let mut first = true;\n    for line in lines {\n        if !first {\n            result.push('\\n');\n        }\n        first = false;\n        result.push_str(&line);\n    }\n    Ok(result)"), (C, "let mut lines = lines\n", "let lines = lines\n"))
s("b-helper", (C, "        let indent = line.len() - line.trim_start_matches([' ', '\\t']).len();\n", "        let indent = leading_whitespace(line);\n"), (C, "fn unquote_block_string(", "fn leading_whitespace(line: &str) -> usize {\n    line.len() - line.trim_start_matches([' ', '\\t']).len()\n}\n\nfn unquote_block_string("))
s("b-takewhile", (C, "        let indent = line.len() - line.trim_start_matches([' ', '\\t']).len();\n", "        let indent = line.chars().take_while(|c| *c == ' ' || *c == '\\t').count();\n"))
s("b-bytes", (C, "        let indent = line.len() - line.trim_start_matches([' ', '\\t']).len();\n", "        let indent = line.bytes().take_while(|b| matches!(b, b' ' | b'\\t')).count();\n"))
s("b-find", (C, "        let indent = line.len() - line.trim_start_matches([' ', '\\t']).len();\n        if indent == line.len() {\n            continue;\n        }\n", "        let indent = match line.find(|c: char| c != ' ' && c != '\\t') {\n            Some(indent) => indent,\n            None => continue,\n        };\n"))
s("b-ifmin", C, "            common_indent = std::cmp::min(common_indent, indent);", "            if indent < common_indent {\n                common_indent = indent;\n            }")
s("b-minm", C, "            common_indent = std::cmp::min(common_indent, indent);", "            common_indent = common_indent.min(indent);")
s("b-nest", C, PASS1, "    for (idx, line) in lines.clone().enumerate() {\n        let rest = line.trim_start_matches(|c| c == ' ' || c == '\\t');\n        if !rest.is_empty() {\n            if first_non_empty_line.is_none() {\n                first_non_empty_line = Some(idx);\n            }\n            last_non_empty_line = idx;\n            if idx > 0 {\n                common_indent = common_indent.min(line.len() - rest.len());\n            }\n        }\n    }\n")
s("b-vec", (C, "let lines = src[3..src.len() - 3].lines();", "let lines: Vec<&str> = src[3..src.len() - 3].lines().collect();"), (C, "in lines.clone().enumerate()", "in lines.iter().enumerate()"), (C, "    let mut lines = lines\n        .enumerate()", "    let mut lines = lines\n        .iter()\n        .enumerate()"), (C, "            } else {\n                line\n            }\n        })", "            } else {\n                *line\n            }\n        })"))
s("b-slice", (C, "let lines = src[3..src.len() - 3].lines();", "let lines: Vec<&str> = src[3..src.len() - 3].lines().collect();"), (C, "in lines.clone().enumerate()", "in lines.iter().copied().enumerate()"), (C, "    let mut lines = lines\n        .enumerate()\n        // Skip leading and trailing empty lines.\n        .skip(first_non_empty_line)\n        .take(last_non_empty_line - first_non_empty_line + 1)", "    let mut lines = lines[first_non_empty_line..=last_non_empty_line]\n        .iter()\n        .enumerate()\n        .map(|(i, line)| (i + first_non_empty_line, *line))"))
s("b-indent-opt", (C, "let mut common_indent = usize::MAX;", "let mut common_indent: Option<usize> = None;"), (C, "            common_indent = std::cmp::min(common_indent, indent);", "            common_indent = Some(match common_indent {\n                Some(old) => old.min(indent),\n                None => indent,\n            });"), (C, "line.get(common_indent..).unwrap_or(\"\")", "line.get(common_indent.unwrap_or(0)..).unwrap_or(\"\")"))
s("b-two", C, PASS1, "    for (idx, line) in lines.clone().enumerate() {\n        if line.trim_start_matches([' ', '\\t']).is_empty() {\n            continue;\n        }\n        first_non_empty_line.get_or_insert(idx);\n        last_non_empty_line = idx;\n    }\n    for line in lines.clone().skip(1) {\n        let indent = line.len() - line.trim_start_matches([' ', '\\t']).len();\n        if indent < line.len() {\n            common_indent = common_indent.min(indent);\n        }\n    }\n")
s("b-min", C, PASS1, "    for (idx, line) in lines.clone().enumerate() {\n        if line.trim_start_matches([' ', '\\t']).is_empty() {\n            continue;\n        }\n        first_non_empty_line.get_or_insert(idx);\n        last_non_empty_line = idx;\n    }\n    if let Some(least) = lines\n        .clone()\n        .skip(1)\n        .filter_map(|line| {\n            let indent = line.len() - line.trim_start_matches([' ', '\\t']).len();\n            if indent == line.len() {\n                None\n            } else {\n                Some(indent)\n            }\n        })\n        .min()\n    {\n        common_indent = least;\n    }\n")
s("b-pos", (C, "let lines = src[3..src.len() - 3].lines();", "let all: Vec<&str> = src[3..src.len() - 3].lines().collect();\n    let lines = all.iter().copied();\n    let blank = |line: &str| line.bytes().all(|b| b == b' ' || b == b'\\t');"), (C, PASS1, "    if let (Some(first), Some(last)) = (\n        all.iter().position(|line| !blank(line)),\n        all.iter().rposition(|line| !blank(line)),\n    ) {\n        first_non_empty_line = Some(first);\n        last_non_empty_line = last;\n    }\n    for line in all.iter().skip(1) {\n        if blank(line) {\n            continue;\n        }\n        let indent = line.len() - line.trim_start_matches([' ', '\\t']).len();\n        common_indent = std::cmp::min(common_indent, indent);\n    }\n"))
s("b-whilelet", (C, "    for (idx, line) in lines.clone().enumerate() {\n        // only", "    let mut numbered = lines.clone().enumerate();\n    while let Some((idx, line)) = numbered.next() {\n        // only"))
s("b-counter", (C, "    for (idx, line) in lines.clone().enumerate() {\n        // only", "    let mut next = 0;\n    for line in lines.clone() {\n        let idx = next;\n        next += 1;\n        // only"))
s("b-oneMap", (C, MAP1 + "        // Handle escaped triple-quote (\\\"\"\").\n" + MAP2, "        .map(|(idx, line)| {\n            let line = if idx == 0 { line } else { line.get(common_indent..).unwrap_or_default() };\n            line.replace(\"\\\\\\\"\\\"\\\"\", \"\\\"\\\"\\\"\")\n        });"))
s("b-end", (C, MAP2, "        ;"), (C, "    if let Some(line) = lines.next() {\n        result.push_str(&line);\n\n        for line in lines {\n            result.push('\\n');\n            result.push_str(&line);\n        }\n    }\n    Ok(result)", "    if let Some(line) = lines.next() {\n        result.push_str(line);\n\n        for line in lines {\n            result.push('\\n');\n            result.push_str(line);\n        }\n    }\n    Ok(result.replace(r#\"\\\"\"\"\"#, r#\"\"\"\"\"#))"))
s("b-forloop", (C, "    let mut lines = lines\n        .enumerate()\n        // Skip leading and trailing empty lines.\n        .skip(first_non_empty_line)\n        .take(last_non_empty_line - first_non_empty_line + 1)\n        // Remove indent, except the first line.\n" + MAP1 + "        // Handle escaped triple-quote (\\\"\"\").\n" + MAP2 + "\n\n" + TAIL, "    for (idx, line) in lines.enumerate() {\n        if idx < first_non_empty_line || idx > last_non_empty_line {\n            continue;\n        }\n        if idx > first_non_empty_line {\n            result.push('\\n');\n        }\n        if idx == 0 {\n            result.push_str(&line.replace(r#\"\\\"\"\"\"#, r#\"\"\"\"\"#));\n        } else if line.len() > common_indent {\n            result.push_str(&line[common_indent..].replace(r#\"\\\"\"\"\"#, r#\"\"\"\"\"#));\n        }\n    }\n    Ok(result)"))
s("b-early", (C, "    if first_non_empty_line.is_none() {\n        // The block string contains only whitespace.\n        return Ok(\"\".to_string());\n    }\n    let first_non_empty_line = first_non_empty_line.unwrap();", "    let first_non_empty_line = match first_non_empty_line {\n        Some(idx) => idx,\n        None => return Ok(String::new()),\n    };"))
s("b-minlen", C, "line.get(common_indent..).unwrap_or(\"\")", "&line[common_indent.min(line.len())..]")
