T = "tokenizer.rs"
UP = "        let val = &self.buf[self.off..][..len];\n        self.off += len;\n        let lines = val.as_bytes().iter().filter(|&&x| x == b'\\n').count();\n        self.position.line += lines;\n        if lines > 0 {\n            let line_offset = val.rfind('\\n').unwrap() + 1;\n            let num = val[line_offset..].chars().count();\n            self.position.column = num + 1;\n        } else {\n            let num = val.chars().count();\n            self.position.column += num;\n        }"
assert True
bug("P08", "name-digit-start", T, "            '_' | 'a'..='z' | 'A'..='Z' => {\n                for", "            '_' | 'a'..='z' | 'A'..='Z' | 'à' => {\n                for")
bug("P08", "name-unicode", T, "'_' | 'a'..='z' | 'A'..='Z' | '0'..='9' => continue,", "c if c == '_' || c.is_alphanumeric() => continue,")
bug("P08", "int-leading-zero", T, "            && !value.starts_with(\"-0\")", "")
bug("P08", "float-order", T, "        (Some(e), Some(r)) if e < r => false,", "        (Some(e), Some(r)) if e < r => check_int(&value[..e]),")
bug("P08", "dec-empty", T, "    !value.is_empty() && value.chars().all(|x| x.is_ascii_digit())", "    value.chars().all(|x| x.is_ascii_digit())")
bug("P08", "exp-unicode-digit", T, "(first.is_ascii_digit() || value.len() > 1) && value[1..].chars().all(|x| x.is_ascii_digit())", "(first.is_ascii_digit() || value.len() > 1) && value[1..].chars().all(|x| x.is_numeric())")
bug("P08,P09", "block-escape", T, "if !tail[..end_idx].ends_with('\\\\') {", "if !tail[..end_idx].ends_with(\"\\\\\\\\\") {")
bug("P08", "str-escape-twice", T, "escaped = !escaped && cur_char == '\\\\';", "escaped = cur_char == '\\\\';")
bug("P08", "str-cr", T, "                            '\\n' | '\\r' => {\n                                return Err", "                            '\\n' => {\n                                return Err")
bug("P08", "empty-block", T, "if iter.as_str().starts_with(\"\\\"\\\"\") {", "if iter.as_str().starts_with(\"\\\"\\\"\") && iter.as_str().len() > 2 {")
bug("P08", "dots-two", T, "if iter.as_str().starts_with(\"..\") {", "if iter.as_str().starts_with(\".\") {")
bug("P08", "punct-ampersand", T, "'!' | '$' | ':' | '=' | '@' | '|' | '&' => self.advance_token", "'!' | '$' | ':' | '=' | '@' | '|' | '&' | ';' => self.advance_token")
bug("P08", "minus-in-number", T, "                        '-' if exponent != Some(idx - 1) => break idx,\n", "")
bug("P08", "number-stop-feff", T, "'}' | '\"' | '\\u{feff}' => break idx,", "'}' | '\"' => break idx,")
bug("P09", "skip-nbsp", T, "' ' | ',' => {\n                    self.position.column += 1;", "' ' | ',' | '\\u{a0}' => {\n                    self.position.column += 1;")
bug("P09", "comment-cr", T, "if cur_char == '\\r' || cur_char == '\\n' {", "if cur_char == '\\n' {")
bug("P09", "bom-only-start", T, "'\\u{feff}' | '\\r' => continue,", "'\\r' => continue,")
bug("P09", "bom-first", T, "'\\u{feff}' | '\\r' => continue,", "'\\r' => continue,\n                '\\u{feff}' if self.off + idx == 0 => continue,")
bug("P14", "col-tab", T, "'\\t' => self.position.column += 8,", "'\\t' => self.position.column += 4,")
bug("P14", "col-tabstop", T, "'\\t' => self.position.column += 8,", "'\\t' => self.position.column = (self.position.column - 1) / 8 * 8 + 9,")
bug("P14", "col-str-bytes", T, "self.position.column += nchars;", "self.position.column += idx + 1;")
bug("P14", "col-block-bytes", T, "let num = val[line_offset..].chars().count();", "let num = val[line_offset..].len();")
bug("P14", "col-block-bytes2", T, "            let num = val.chars().count();", "            let num = val.len();")
bug("P14", "line-comment-crlf", T, "if cur_char == '\\r' && iter.as_str().starts_with('\\n') {", "if cur_char == '\\r' && iter.as_str().starts_with(\"\\n\\n\") {")
bug("P14", "line-block-chars", T, "filter(|&&x| x == b'\\n').count()", "filter(|&&x| x == b'\\n' || x == b'\\r').count()")
bug("P14", "col-bom", T, "'\\u{feff}' | '\\r' => continue,\n                '\\t' => self.position.column += 8,", "'\\r' => continue,\n                '\\u{feff}' => self.position.column += 1,\n                '\\t' => self.position.column += 8,")
bug("P14", "line-reset", T, "            position: self.position,\n            off: self.off,\n        }\n    }\n    fn reset", "            position: Pos { line: self.position.line, column: 1 },\n            off: self.off,\n        }\n    }\n    fn reset")
bug("P14", "cache-pos", (T, "        self.skip_whitespace();\n        let token = Token { kind, value };", "        let after = self.position;\n        self.skip_whitespace();\n        let token = Token { kind, value };"), (T, "self.next_state = Some((old_pos, token, self.off, self.position));", "self.next_state = Some((old_pos, token, self.off, after));"))
bug("P11", "saturate", T, "self.recursion_limit = self.recursion_limit.saturating_add(1);", "self.recursion_limit = self.recursion_limit.saturating_add(2);")
bug("P11", "curly-free", T, "            '(' | '[' | '{' => {\n                // Check", "            '{' => self.advance_token(Punctuator, 1),\n            '(' | '[' => {\n                // Check")
bug("P11", "close-curly", T, "            ')' | ']' | '}' => {\n", "            '}' => self.advance_token(Punctuator, 1),\n            ')' | ']' => {\n")
bug("P11,P08,P09", "cache-off", T, "            if at == self.off {", "            if at <= self.off {")
bug("P17", "offset-end", T, "    pub(crate) fn offset(&self) -> usize {\n        self.off\n", "    pub(crate) fn offset(&self) -> usize {\n        self.next_state.map_or(self.off, |(at, t, _, _)| if t.value == \"}\" { at + 1 } else { self.off })\n")
# ---- behaviour preserving
same("lex-helper-fns", (T, "            '_' | 'a'..='z' | 'A'..='Z' => {\n                for (idx, cur_char) in iter.by_ref() {\n                    match cur_char {\n                        '_' | 'a'..='z' | 'A'..='Z' | '0'..='9' => continue,\n                        _ => return self.advance_token(Name, idx),\n                    }\n                }\n                let len = self.buf.len() - self.off;\n                self.position.column += len;\n                self.off += len;\n\n                Ok((Name, len))\n            }",
  "            '_' | 'a'..='z' | 'A'..='Z' => {\n                let rest = &self.buf[self.off..];\n                let len = rest.find(|c: char| !is_name_char(c)).unwrap_or(rest.len());\n                self.advance_token(Name, len)\n            }"),
  (T, "fn check_dec(", "fn is_name_char(c: char) -> bool {\n    c == '_' || c.is_ascii_alphanumeric()\n}\n\nfn check_dec("))
same("lex-ws-match", T, "                '\\u{feff}' | '\\r' => continue,\n                '\\t' => self.position.column += 8,", "                '\\u{feff}' => {}\n                '\\r' => {}\n                '\\t' => {\n                    self.position.column += 8;\n                }")
same("lex-ws-peek", T, "            let (idx, cur_char) = match iter.next() {\n                Some(pair) => pair,\n                None => break self.buf.len() - self.off,\n            };\n            match cur_char {\n                '\\u{feff}'", "            let Some((idx, cur_char)) = iter.next() else {\n                break self.buf.len() - self.off;\n            };\n            match cur_char {\n                '\\u{feff}'")
same("lex-newline-helper", (T, "                    self.position.column = 1;\n                    self.position.line += 1;\n                }\n                // comma", "                    self.next_line();\n                }\n                // comma"),
  (T, "                            self.position.column = 1;\n                            self.position.line += 1;\n                            break;", "                            self.next_line();\n                            break;"),
  (T, "    fn skip_whitespace(&mut self) {", "    fn next_line(&mut self) {\n        self.position.line += 1;\n        self.position.column = 1;\n    }\n\n    fn skip_whitespace(&mut self) {"))
same("lex-update-chars", T, "        let lines = val.as_bytes().iter().filter(|&&x| x == b'\\n').count();\n        self.position.line += lines;\n        if lines > 0 {\n            let line_offset = val.rfind('\\n').unwrap() + 1;\n            let num = val[line_offset..].chars().count();\n            self.position.column = num + 1;\n        } else {\n            let num = val.chars().count();\n            self.position.column += num;\n        }",
  "        for c in val.chars() {\n            if c == '\\n' {\n                self.position.line += 1;\n                self.position.column = 1;\n            } else {\n                self.position.column += 1;\n            }\n        }")
same("lex-update-matches", T, "        let lines = val.as_bytes().iter().filter(|&&x| x == b'\\n').count();", "        let lines = val.matches('\\n').count();")
same("lex-update-rfind", T, "        if lines > 0 {\n            let line_offset = val.rfind('\\n').unwrap() + 1;\n            let num = val[line_offset..].chars().count();\n            self.position.column = num + 1;\n        } else {\n            let num = val.chars().count();\n            self.position.column += num;\n        }", "        match val.rfind('\\n') {\n            Some(i) => self.position.column = val[i + 1..].chars().count() + 1,\n            None => self.position.column += val.chars().count(),\n        }")
same("lex-off-add", T, "        self.position.column += size;\n        self.off += size;\n        Ok((kind, size))", "        self.off += size;\n        self.position.column = self.position.column + size;\n        Ok((kind, size))")
same("lex-limit-if", T, "                self.recursion_limit = self\n                    .recursion_limit\n                    .checked_sub(1)\n                    .ok_or_else(|| Error::message_static_message(\"Recursion limit exceeded\"))?;\n", "                if self.recursion_limit == 0 {\n                    return Err(Error::message_static_message(\"Recursion limit exceeded\"));\n                }\n                self.recursion_limit -= 1;\n")
same("lex-uncons-match", T, "        if let Some((at, tok, off, pos)) = self.next_state {\n            if at == self.off {\n                self.off = off;\n                self.position = pos;\n                return Ok(tok);\n            }\n        }", "        match self.next_state {\n            Some((at, tok, off, pos)) if at == self.off => {\n                self.position = pos;\n                self.off = off;\n                return Ok(tok);\n            }\n            _ => {}\n        }")
same("lex-num-split", (T, "                if exponent.is_some() || real.is_some() {\n                    let value = &self.buf[self.off..][..len];\n                    if !check_float", "                let value = &self.buf[self.off..self.off + len];\n                if exponent.is_some() || real.is_some() {\n                    if !check_float"), (T, "                } else {\n                    let value = &self.buf[self.off..][..len];\n                    if !check_int", "                } else {\n                    if !check_int"),
  (T, "                    self.position.column += len;\n                    self.off += len;\n\n                    Ok((FloatValue, len))", "                    self.advance_token(FloatValue, len)"))
same("lex-check-bytes", T, "    !value.is_empty() && value.chars().all(|x| x.is_ascii_digit())", "    !value.is_empty() && value.bytes().all(|x| x.is_ascii_digit())")
same("lex-check-int-strip", T, "    value == \"0\"\n        || value == \"-0\"\n        || (!value.starts_with('0')\n            && value != \"-\"\n            && !value.starts_with(\"-0\")\n            && value[1..].chars().all(|x| x.is_ascii_digit()))", "    let digits = value.strip_prefix('-').unwrap_or(value);\n    digits == \"0\" || (!digits.starts_with('0') && check_dec(digits))")
same("lex-block-find", T, "                    for (end_idx, _) in tail.match_indices(\"\\\"\\\"\\\"\") {\n                        if !tail[..end_idx].ends_with('\\\\') {\n                            self.update_position(end_idx + 6);\n                            return Ok((BlockString, end_idx + 6));\n                        }\n                    }", "                    for (end_idx, _) in tail.match_indices(\"\\\"\\\"\\\"\") {\n                        if tail[..end_idx].ends_with('\\\\') {\n                            continue;\n                        }\n                        let size = end_idx + 6;\n                        self.update_position(size);\n                        return Ok((BlockString, size));\n                    }")
same("lex-str-match", T, "                    for (idx, cur_char) in iter {\n                        nchars += 1;\n                        match cur_char {\n                            '\"' if escaped => {}\n                            '\"' => {", "                    for (idx, cur_char) in iter {\n                        nchars += 1;\n                        match cur_char {\n                            '\"' if !escaped => {")
same("lex-err-fn", (T, "                    Err(Error::Unexpected(Info::Owned(\n                        \"unterminated block string value\".to_string(),\n                    )))", "                    Err(unterminated(\"block string\"))"), (T, "fn check_dec(", "fn unterminated<'a>(what: &str) -> Error<Token<'a>, Token<'a>> {\n    Error::Unexpected(Info::Owned(format!(\"unterminated {} value\", what)))\n}\n\nfn check_dec("))
