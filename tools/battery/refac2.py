# larger rewrites of the lexer, minifier and formatter, as somebody who has not seen the checks would make them
T, M, C, F = "tokenizer.rs", "query/minify.rs", "common.rs", "format.rs"
import os as _os
_SRC = _os.path.join(_os.environ.get("VERIF_REPO", "/repo"), "src")


def _cut(f, a, b, incl=False):
    t = open(_os.path.join(_SRC, f)).read()
    i = t.index(a); j = t.index(b, i + len(a))
    return t[i:j + (len(b) if incl else 0)]


NUM = _cut(T, "                let mut exponent = None;\n", "            '\"' => {\n                if iter")
SCAN = _cut(T, "                let mut exponent = None;\n", "                if exponent.is_some()")
VALID = _cut(T, "                if exponent.is_some()", "            '\"' => {\n                if iter")
NAME = _cut(T, "                for (idx, cur_char) in iter.by_ref() {", "            '-' | '0'..='9' => {")
STR = _cut(T, "                    let mut nchars = 1;\n", "            _ => Err(Error::Unexpected(Info::Owned(\n                format_args!(\"unexpected")
BLK = _cut(T, "                    let tail = &iter.as_str()[2..];\n", "                } else {\n                    let mut nchars")
SKIP = _cut(T, "    fn skip_whitespace(&mut self) {", "    fn update_position")
UPD = _cut(T, "    fn update_position(&mut self, len: usize) {", "impl<'a> fmt::Display for Token")
UNC = _cut(T, "        if let Some((at, tok, off, pos)) = self.next_state {", "impl<'a> Positioned")
CINT = _cut(T, "fn check_int(value: &str) -> bool {", "fn check_dec")
CDEC = _cut(T, "fn check_dec(value: &str) -> bool {", "fn check_exp")
CEXP = _cut(T, "fn check_exp(value: &str) -> bool {", "fn check_float")
CFLO = _cut(T, "fn check_float(", "impl<'a> TokenStream<'a> {\n    pub fn new")
END = "            _ => Err(Error::Unexpected(Info::Owned(\n                format_args!(\"unexpected"
MEND = "    fn skip_whitespace(&mut self) {"

STOPS = "' ' | '\\n' | '\\r' | '\\t' | ',' | '#' | '!' | '$' | ':' | '=' | '@' | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' | '\"' | '\\u{feff}'"

same("tk-valid-merge", T, VALID, """                let value = &self.buf[self.off..][..len];
                let is_float = exponent.is_some() || real.is_some();
                let valid = if is_float { check_float(value, exponent, real) } else { check_int(value) };
                if !valid {
                    let what = if is_float { "float" } else { "integer" };
                    return Err(Error::Unexpected(Info::Owned(format!("unsupported {} {:?}", what, value))));
                }
                self.advance_token(if is_float { FloatValue } else { IntValue }, len)
            }
""")
same("tk-valid-match", T, VALID, """                let value = &self.buf[self.off..][..len];
                match (exponent, real) {
                    (None, None) if check_int(value) => self.advance_token(IntValue, len),
                    (None, None) => Err(Error::Unexpected(Info::Owned(format!("unsupported integer {:?}", value)))),
                    _ if check_float(value, exponent, real) => self.advance_token(FloatValue, len),
                    _ => Err(Error::Unexpected(Info::Owned(format!("unsupported float {:?}", value)))),
                }
            }
""")
same("tk-number-method", (T, NUM, "                self.take_number(iter)\n            }\n"), (T, MEND, "    fn take_number(&mut self, mut iter: std::str::CharIndices<'a>) -> Result<(Kind, usize), Error<Token<'a>, Token<'a>>> {\n        use self::Kind::*;\n" + NUM[:NUM.rindex("            }")] + "    }\n\n" + MEND))
same("tk-string-method", (T, STR, "                    self.take_string(iter)\n                }\n            }\n"), (T, MEND, "    fn take_string(&mut self, iter: std::str::CharIndices<'a>) -> Result<(Kind, usize), Error<Token<'a>, Token<'a>>> {\n" + STR[:STR.rindex("                }\n")].replace("StringValue", "Kind::StringValue") + "    }\n\n" + MEND))
same("tk-block-method", (T, BLK, "                    self.take_block_string(&iter.as_str()[2..])\n"), (T, MEND, """    fn take_block_string(&mut self, tail: &str) -> Result<(Kind, usize), Error<Token<'a>, Token<'a>>> {
        let end = tail
            .match_indices("\\"\\"\\"")
            .map(|(idx, _)| idx)
            .find(|&idx| !tail[..idx].ends_with('\\\\'));
        match end {
            Some(idx) => {
                self.update_position(idx + 6);
                Ok((Kind::BlockString, idx + 6))
            }
            None => Err(Error::Unexpected(Info::Owned("unterminated block string value".to_string()))),
        }
    }

""" + MEND))
same("tk-block-while", T, BLK, """                    let tail = &iter.as_str()[2..];
                    let mut from = 0;
                    while let Some(found) = tail[from..].find("\\"\\"\\"") {
                        let end_idx = from + found;
                        if !tail[..end_idx].ends_with('\\\\') {
                            let len = end_idx + 6;
                            self.update_position(len);
                            return Ok((BlockString, len));
                        }
                        from = end_idx + 3;
                    }

                    Err(Error::Unexpected(Info::Owned(
                        "unterminated block string value".to_string(),
                    )))
""")
same("tk-name-find", T, NAME, """                let rest = &self.buf[self.off..];
                let len = rest
                    .find(|c: char| !(c == '_' || c.is_ascii_alphanumeric()))
                    .unwrap_or(rest.len());
                self.advance_token(Name, len)
            }
""")
same("tk-name-pos", T, NAME, """                let len = self.buf[self.off..]
                    .bytes()
                    .position(|b| !(b == b'_' || b.is_ascii_alphanumeric()))
                    .unwrap_or_else(|| self.buf.len() - self.off);
                self.advance_token(Name, len)
            }
""")
same("tk-name-takewhile", T, NAME, """                let more = iter.take_while(|&(_, c)| matches!(c, '_' | 'a'..='z' | 'A'..='Z' | '0'..='9')).count();
                self.advance_token(Name, 1 + more)
            }
""")
same("tk-name-break", T, NAME, """                let mut len = 1;
                for (_, c) in iter {
                    if !c.is_ascii_alphanumeric() && c != '_' {
                        break;
                    }
                    len += 1;
                }
                self.advance_token(Name, len)
            }
""")
same("tk-name-findmap", T, NAME, """                let end = iter.find(|&(_, c)| !(c == '_' || c.is_ascii_alphanumeric()));
                let len = match end {
                    Some((idx, _)) => idx,
                    None => self.buf.len() - self.off,
                };
                self.advance_token(Name, len)
            }
""")
same("tk-string-next", T, STR, """                    let mut nchars = 1;
                    while let Some((idx, c)) = iter.next() {
                        nchars += 1;
                        match c {
                            '\\\\' => match iter.clone().next() {
                                Some((_, '\\n')) | Some((_, '\\r')) | None => break,
                                Some(_) => {
                                    iter.next();
                                    nchars += 1;
                                }
                            },
                            '"' => {
                                self.position.column += nchars;
                                self.off += idx + 1;
                                return Ok((StringValue, idx + 1));
                            }
                            '\\n' | '\\r' => break,
                            _ => {}
                        }
                    }
                    Err(Error::Unexpected(Info::Owned(
                        "unterminated string value".to_string(),
                    )))
                }
            }
""")
same("tk-string-count", T, STR, """                    let mut escaped = false;
                    for (idx, cur_char) in iter {
                        if cur_char == '"' && !escaped {
                            let len = idx + 1;
                            self.position.column += self.buf[self.off..self.off + len].chars().count();
                            self.off += len;
                            return Ok((StringValue, len));
                        }
                        if cur_char == '\\n' || cur_char == '\\r' {
                            break;
                        }
                        escaped = cur_char == '\\\\' && !escaped;
                    }
                    Err(Error::Unexpected(Info::Owned(
                        "unterminated string value".to_string(),
                    )))
                }
            }
""")
same("tk-string-enum", T, STR, """                    let mut escaped = false;
                    for (n, (idx, cur_char)) in iter.enumerate() {
                        match cur_char {
                            '"' if !escaped => {
                                self.position.column += n + 2;
                                self.off += idx + 1;
                                return Ok((StringValue, idx + 1));
                            }
                            '\\n' | '\\r' => break,
                            _ => escaped = !escaped && cur_char == '\\\\',
                        }
                    }
                    Err(Error::Unexpected(Info::Owned(
                        "unterminated string value".to_string(),
                    )))
                }
            }
""")
same("tk-number-while", T, SCAN, """                let mut exponent = None;
                let mut real = None;
                let mut len = self.buf.len() - self.off;
                while let Some((idx, cur_char)) = iter.next() {
                    let stop = match cur_char {
                        %s => true,
                        '-' => exponent != Some(idx - 1),
                        _ => false,
                    };
                    if stop {
                        len = idx;
                        break;
                    }
                    if cur_char == '.' {
                        real = Some(idx);
                    } else if cur_char == 'e' || cur_char == 'E' {
                        exponent = Some(idx);
                    }
                }

""" % STOPS)
same("tk-number-prev", T, SCAN, """                let mut exponent = None;
                let mut real = None;
                let mut prev = cur_char;
                let mut len = self.buf.len() - self.off;
                for (idx, c) in iter {
                    match c {
                        %s => {
                            len = idx;
                            break;
                        }
                        '.' => real = Some(idx),
                        'e' | 'E' => exponent = Some(idx),
                        '-' if !matches!(prev, 'e' | 'E') => {
                            len = idx;
                            break;
                        }
                        _ => {}
                    }
                    prev = c;
                }

""" % STOPS)
same("tk-number-endfn", (T, SCAN, SCAN.replace(SCAN[SCAN.index("                        ' ' |"):SCAN.index(" => break idx,")], "                        c if ends_number(c)")), (T, "fn check_float(", """fn ends_number(c: char) -> bool {
    matches!(c, %s)
}

fn check_float(""" % STOPS))
same("tk-number-contains", T, SCAN, SCAN.replace(SCAN[SCAN.index("                        ' ' |"):SCAN.index(" => break idx,")], "                        c if \" \\n\\r\\t,#!$:=@|&()[]{}\\\"\\u{feff}\".contains(c)"))
same("tk-number-foreach-pos", T, SCAN, """                let rest = &self.buf[self.off..];
                let mut exponent = None;
                let mut real = None;
                let len = iter
                    .find(|&(idx, c)| {
                        match c {
                            '.' => real = Some(idx),
                            'e' | 'E' => exponent = Some(idx),
                            '-' => return exponent != Some(idx - 1),
                            %s => return true,
                            _ => {}
                        }
                        false
                    })
                    .map_or(rest.len(), |(idx, _)| idx);

""" % STOPS)
same("tk-int-chars", T, CINT, """fn check_int(value: &str) -> bool {
    let digits = match value.strip_prefix('-') {
        Some(x) => x,
        None => value,
    };
    let mut chars = digits.chars();
    match chars.next() {
        Some('0') => chars.next().is_none(),
        Some(c) if c.is_ascii_digit() => chars.all(|c| c.is_ascii_digit()),
        _ => false,
    }
}

""")
same("tk-int-early", T, CINT, """fn check_int(value: &str) -> bool {
    if value == "0" || value == "-0" {
        return true;
    }
    if value == "-" || value.starts_with('0') || value.starts_with("-0") {
        return false;
    }
    value.chars().skip(1).all(|x| x.is_ascii_digit())
}

""")
same("tk-int-trim", T, CINT, """fn check_int(value: &str) -> bool {
    let digits = if value.starts_with('-') { &value[1..] } else { value };
    check_dec(digits) && (digits == "0" || !digits.starts_with('0'))
}

""")
same("tk-dec-any", T, CDEC, """fn check_dec(value: &str) -> bool {
    if value.is_empty() {
        return false;
    }
    !value.chars().any(|x| !x.is_ascii_digit())
}

""")
same("tk-exp-strip", T, CEXP, """fn check_exp(value: &str) -> bool {
    match value.strip_prefix(|c| c == '+' || c == '-') {
        Some(digits) => check_dec(digits),
        None => check_dec(value) && !value.starts_with('0'),
    }
}

""")
same("tk-exp-chars", T, CEXP, """fn check_exp(value: &str) -> bool {
    let mut chars = value.chars();
    match chars.next() {
        Some('-') | Some('+') => check_dec(chars.as_str()),
        Some('1'..='9') => chars.all(|c| c.is_ascii_digit()),
        _ => false,
    }
}

""")
same("tk-float-split", T, CFLO, """fn check_float(value: &str, exponent: Option<usize>, real: Option<usize>) -> bool {
    let (mantissa, exp) = match exponent {
        Some(e) => (&value[..e], Some(&value[e + 1..])),
        None => (value, None),
    };
    if let Some(exp) = exp {
        if !check_exp(exp) {
            return false;
        }
    }
    match real {
        Some(r) if r > mantissa.len() => false,
        Some(r) => check_int(&mantissa[..r]) && check_dec(&mantissa[r + 1..]),
        None => check_int(mantissa),
    }
}

""")
same("tk-float-find", (T, CFLO, """fn check_float(value: &str) -> bool {
    let (mantissa, exp_ok) = match value.find(|c| c == 'e' || c == 'E') {
        Some(e) => (&value[..e], check_exp(&value[e + 1..])),
        None => (value, true),
    };
    exp_ok
        && match mantissa.find('.') {
            Some(r) => check_int(&mantissa[..r]) && check_dec(&mantissa[r + 1..]),
            None => check_int(mantissa),
        }
}

"""), (T, "!check_float(value, exponent, real)", "!check_float(value)"))
same("tk-uncons-cached", (T, UNC, """        if let Some(token) = self.cached() {
            return Ok(token);
        }
        let start = self.off;
        let (kind, len) = self.take_token()?;
        let end = self.off;
        let token = Token {
            kind,
            value: &self.buf[end - len..end],
        };
        self.skip_whitespace();
        self.next_state = Some((start, token, self.off, self.position));
        Ok(token)
    }
}

"""), (T, MEND, """    /// The token at the current offset when it has been read before
    fn cached(&mut self) -> Option<Token<'a>> {
        let (at, tok, off, pos) = self.next_state?;
        if at != self.off {
            return None;
        }
        self.off = off;
        self.position = pos;
        Some(tok)
    }

""" + MEND))
same("tk-uncons-match", T, UNC, """        match self.next_state {
            Some((at, tok, off, pos)) if at == self.off => {
                self.off = off;
                self.position = pos;
                Ok(tok)
            }
            _ => {
                let at = self.off;
                let (kind, len) = self.take_token()?;
                let token = Token { kind, value: &self.buf[at..at + len] };
                self.skip_whitespace();
                self.next_state = Some((at, token, self.off, self.position));
                Ok(token)
            }
        }
    }
}

""")
same("tk-uncons-filter", T, UNC, """        if let Some((_, tok, off, pos)) = self.next_state.filter(|s| s.0 == self.off) {
            self.off = off;
            self.position = pos;
            return Ok(tok);
        }
        let before = self.off;
        let (kind, len) = self.take_token()?;
        let value = &self.buf[before..][..len];
        let token = Token { kind, value };
        self.skip_whitespace();
        self.next_state = Some((before, token, self.off, self.position));
        Ok(token)
    }
}

""")
same("tk-uncons-andthen", T, UNC, """        if let Some((at, tok, off, pos)) = self.next_state {
            if at == self.off {
                self.off = off;
                self.position = pos;
                return Ok(tok);
            }
        }
        let old_pos = self.off;
        self.take_token().map(|(kind, len)| {
            let value = &self.buf[self.off - len..self.off];
            self.skip_whitespace();
            let token = Token { kind, value };
            self.next_state = Some((old_pos, token, self.off, self.position));
            token
        })
    }
}

""")
same("tk-skip-bytes", T, SKIP, """    fn skip_whitespace(&mut self) {
        let mut rest = &self.buf[self.off..];
        while let Some(c) = rest.chars().next() {
            match c {
                '\\u{feff}' | '\\r' => {}
                '\\t' => self.position.column += 8,
                '\\n' => {
                    self.position.column = 1;
                    self.position.line += 1;
                }
                ' ' | ',' => self.position.column += 1,
                '#' => {
                    let end = rest.find(|c| c == '\\n' || c == '\\r').unwrap_or(rest.len());
                    rest = &rest[end..];
                    if let Some(after) = rest.strip_prefix("\\r\\n") {
                        rest = after;
                    } else if !rest.is_empty() {
                        rest = &rest[1..];
                    } else {
                        break;
                    }
                    self.position.column = 1;
                    self.position.line += 1;
                    continue;
                }
                _ => break,
            }
            rest = &rest[c.len_utf8()..];
        }
        self.off = self.buf.len() - rest.len();
    }

""")
same("tk-skip-comment", (T, SKIP, SKIP.replace(SKIP[SKIP.index("                    while let Some((_, cur_char))"):SKIP.index("                    continue;\n                }\n                _ => break idx")], "                    if skip_comment(&mut iter) {\n                        self.position.column = 1;\n                        self.position.line += 1;\n                    }\n")), (T, "fn check_float(", """/// Skips the rest of a comment; true when a line terminator ended it
fn skip_comment(iter: &mut std::str::CharIndices) -> bool {
    while let Some((_, c)) = iter.next() {
        match c {
            '\\r' if iter.as_str().starts_with('\\n') => continue,
            '\\r' | '\\n' => return true,
            _ => {}
        }
    }
    false
}

fn check_float("""))
same("tk-skip-newline", (T, SKIP, SKIP.replace("                    self.position.column = 1;\n                    self.position.line += 1;\n                }\n                // comma", "                    self.new_line();\n                }\n                // comma").replace("                            self.position.column = 1;\n                            self.position.line += 1;\n                            break;", "                            self.new_line();\n                            break;")), (T, MEND, "    fn new_line(&mut self) {\n        self.position.line += 1;\n        self.position.column = 1;\n    }\n\n" + MEND))
same("tk-skip-pos", T, SKIP, """    fn skip_whitespace(&mut self) {
        let mut pos = self.position;
        let mut in_comment = false;
        let mut end = self.buf.len();
        let mut iter = self.buf[self.off..].char_indices();
        while let Some((idx, c)) = iter.next() {
            if in_comment {
                if c == '\\n' || (c == '\\r' && !iter.as_str().starts_with('\\n')) {
                    in_comment = false;
                    pos.line += 1;
                    pos.column = 1;
                }
                continue;
            }
            match c {
                '#' => in_comment = true,
                '\\n' => {
                    pos.line += 1;
                    pos.column = 1;
                }
                '\\t' => pos.column += 8,
                ' ' | ',' => pos.column += 1,
                '\\u{feff}' | '\\r' => {}
                _ => {
                    end = self.off + idx;
                    break;
                }
            }
        }
        self.position = pos;
        self.off = end;
    }

""")
same("tk-skip-for", T, "        let idx = loop {\n            let (idx, cur_char) = match iter.next() {\n                Some(pair) => pair,\n                None => break self.buf.len() - self.off,\n            };\n            match cur_char {\n                '\\u{feff}'", "        let idx = loop {\n            let Some((idx, cur_char)) = iter.next() else {\n                break self.buf.len() - self.off;\n            };\n            match cur_char {\n                '\\u{feff}'")
same("tk-upd-split", T, UPD, """    fn update_position(&mut self, len: usize) {
        let val = &self.buf[self.off..self.off + len];
        for c in val.chars() {
            if c == '\\n' {
                self.position.line += 1;
                self.position.column = 1;
            } else {
                self.position.column += 1;
            }
        }
        self.off += len;
    }
}

""")
same("tk-upd-match", T, UPD, """    fn update_position(&mut self, len: usize) {
        let val = &self.buf[self.off..][..len];
        self.off += len;
        match val.rfind('\\n') {
            Some(last) => {
                self.position.line += val.matches('\\n').count();
                self.position.column = val[last + 1..].chars().count() + 1;
            }
            None => self.position.column += val.chars().count(),
        }
    }
}

""")
same("tk-upd-rsplit", T, UPD, """    fn update_position(&mut self, len: usize) {
        let val = &self.buf[self.off..][..len];
        let lines = val.chars().filter(|&c| c == '\\n').count();
        if lines > 0 {
            self.position.line += lines;
            self.position.column = 1;
        }
        let last_line = match val.rfind('\\n') {
            Some(i) => &val[i + 1..],
            None => val,
        };
        self.position.column += last_line.chars().count();
        self.off += len;
    }
}

""")
same("tk-depth-helpers", (T, "                self.recursion_limit = self\n                    .recursion_limit\n                    .checked_sub(1)\n                    .ok_or_else(|| Error::message_static_message(\"Recursion limit exceeded\"))?;\n\n", "                self.enter()?;\n"), (T, MEND, """    fn enter(&mut self) -> Result<(), Error<Token<'a>, Token<'a>>> {
        if self.recursion_limit == 0 {
            return Err(Error::message_static_message("Recursion limit exceeded"));
        }
        self.recursion_limit -= 1;
        Ok(())
    }

""" + MEND))
same("tk-dot-prefix", T, "                if iter.as_str().starts_with(\"..\") {\n                    self.advance_token(Punctuator, 3)\n                } else {", "                let spread = self.buf[self.off..].starts_with(\"...\");\n                if spread {\n                    self.advance_token(Punctuator, \"...\".len())\n                } else {")
same("tk-dot-next", T, "                if iter.as_str().starts_with(\"..\") {", "                if let (Some((_, '.')), Some((_, '.'))) = (iter.next(), iter.next()) {")
same("tk-err-fn", (T, "                            self.update_position(end_idx + 6);\n                            return Ok((BlockString, end_idx + 6));\n                        }\n                    }\n\n                    Err(Error::Unexpected(Info::Owned(\n                        \"unterminated block string value\".to_string(),\n                    )))", "                            self.update_position(end_idx + 6);\n                            return Ok((BlockString, end_idx + 6));\n                        }\n                    }\n\n                    Err(unexpected(\"unterminated block string value\"))"), (T, "fn check_float(", "fn unexpected<'a>(text: impl Into<String>) -> Error<Token<'a>, Token<'a>> {\n    Error::Unexpected(Info::Owned(text.into()))\n}\n\nfn check_float("))
same("tk-first-let", T, "        let cur_char = match iter.next() {\n            Some((_, x)) => x,\n            None => return Err(Error::end_of_input()),\n        };", "        let (_, cur_char) = iter.next().ok_or_else(Error::end_of_input)?;")
same("tk-rest", T, "        let mut iter = self.buf[self.off..].char_indices();\n        let cur_char = match iter.next() {\n            Some((_, x)) => x,\n            None => return Err(Error::end_of_input()),\n        };", "        let rest = &self.buf[self.off..];\n        if rest.is_empty() {\n            return Err(Error::end_of_input());\n        }\n        let mut iter = rest.char_indices();\n        let cur_char = iter.next().map(|(_, c)| c).unwrap();")
same("tk-order", T, "            '!' | '$' | ':' | '=' | '@' | '|' | '&' => self.advance_token(Punctuator, 1),\n            '.' => {", "            ':' | '!' | '$' | '@' | '=' | '&' | '|' => {\n                self.off += 1;\n                self.position.column += 1;\n                Ok((Punctuator, 1))\n            }\n            '.' => {")
same("tk-ctor", T, "        let mut me = TokenStream {\n            buf: s,\n            position: Pos { line: 1, column: 1 },\n            off: 0,\n            next_state: None,\n            recursion_limit,\n        };\n        me.skip_whitespace();\n        me", "        let start = Pos { line: 1, column: 1 };\n        let mut stream = TokenStream {\n            recursion_limit,\n            next_state: None,\n            buf: s,\n            off: 0,\n            position: start,\n        };\n        stream.skip_whitespace();\n        stream")
same("tk-reset", T, "        self.position = checkpoint.position;\n        self.off = checkpoint.off;\n        Ok(())", "        let Checkpoint { position, off } = checkpoint;\n        self.off = off;\n        self.position = position;\n        Ok(())")

# ---- minifier
LOOP = _cut(M, "    let mut bits: Vec<&str> = Vec::new();", "#[cfg(test)]")
s2 = same
s2("mn-fold", (M, LOOP, """    let mut stream = TokenStream::new(source.as_str());
    let mut out = String::new();
    let mut glue = false;
    while let Some(token) = next_token(&mut stream)? {
        let word = token.kind != Kind::Punctuator;
        if glue && word {
            out.push(' ');
        }
        out += token.value;
        glue = word;
    }
    Ok(out)
}

fn next_token<'a>(stream: &mut TokenStream<'a>) -> Result<Option<Token<'a>>, MinifyError> {
    match stream.uncons() {
        Ok(token) => Ok(Some(token)),
        Err(ref e) if e == &combine::easy::Error::end_of_input() => Ok(None),
        Err(e) => Err(MinifyError(e.to_string())),
    }
}

"""))
s2("mn-match", (M, LOOP, """    let mut stream = TokenStream::new(&source);
    let mut bits = Vec::new();
    let mut last = Kind::Punctuator;
    loop {
        let token = match stream.uncons() {
            Ok(token) => token,
            Err(e) => {
                if e == combine::easy::Error::end_of_input() {
                    return Ok(bits.concat());
                }
                return Err(MinifyError(e.to_string()));
            }
        };
        match (last, token.kind) {
            (Kind::Punctuator, _) | (_, Kind::Punctuator) => {}
            _ => bits.push(" "),
        }
        bits.push(token.value);
        last = token.kind;
    }
}

"""))
s2("mn-struct", (M, LOOP, """    let mut stream = TokenStream::new(source.as_str());
    let mut out = Output { text: String::with_capacity(source.len()), word: false };
    loop {
        match stream.uncons() {
            Ok(token) => out.token(&token),
            Err(ref e) if e == &combine::easy::Error::end_of_input() => break,
            Err(e) => return Err(MinifyError(e.to_string())),
        }
    }
    Ok(out.text)
}

struct Output {
    text: String,
    word: bool,
}

impl Output {
    fn token(&mut self, token: &Token) {
        let word = token.kind != Kind::Punctuator;
        if self.word && word {
            self.text.push(' ');
        }
        self.text.push_str(token.value);
        self.word = word;
    }
}

"""))
s2("mn-collect", (M, LOOP, """    let mut stream = TokenStream::new(source.as_str());
    let mut tokens: Vec<Token> = Vec::new();
    loop {
        match stream.uncons() {
            Ok(token) => tokens.push(token),
            Err(ref e) if e == &combine::easy::Error::end_of_input() => break,
            Err(e) => return Err(MinifyError(e.to_string())),
        }
    }
    let mut out = String::new();
    let mut last = Kind::Punctuator;
    for token in &tokens {
        if last != Kind::Punctuator && token.kind != Kind::Punctuator {
            out.push(' ');
        }
        out.push_str(token.value);
        last = token.kind;
    }
    Ok(out)
}

"""))
s2("mn-continue", (M, LOOP, """    let mut bits: Vec<&str> = Vec::new();
    let mut stream = TokenStream::new(source.as_str());
    let mut after_word = false;
    let failure = loop {
        let token = match stream.uncons() {
            Ok(x) => x,
            Err(e) => break e,
        };
        if token.kind == Kind::Punctuator {
            after_word = false;
            bits.push(token.value);
            continue;
        }
        if after_word {
            bits.push(" ");
        }
        bits.push(token.value);
        after_word = true;
    };
    if failure == combine::easy::Error::end_of_input() {
        Ok(bits.join(""))
    } else {
        Err(MinifyError(failure.to_string()))
    }
}

"""))
s2("mn-extend", (M, LOOP, """    let mut bits: Vec<&str> = Vec::new();
    let mut stream = TokenStream::new(source.as_str());
    let mut previous: Option<Kind> = None;
    loop {
        match stream.uncons() {
            Ok(Token { kind, value }) => {
                let separator = match previous {
                    Some(p) if p != Kind::Punctuator && kind != Kind::Punctuator => " ",
                    _ => "",
                };
                bits.extend([separator, value]);
                previous = Some(kind);
            }
            Err(ref e) if e == &combine::easy::Error::end_of_input() => break,
            Err(e) => return Err(MinifyError(e.to_string())),
        }
    }
    Ok(bits.into_iter().collect())
}

"""))
s2("mn-from-fn", (M, LOOP, """    let mut stream = TokenStream::new(source.as_str());
    let mut after_word = false;
    let mut out = String::new();
    let tokens = std::iter::from_fn(|| match stream.uncons() {
        Ok(token) => Some(Ok(token)),
        Err(ref e) if e == &combine::easy::Error::end_of_input() => None,
        Err(e) => Some(Err(MinifyError(e.to_string()))),
    });
    for token in tokens {
        let token: Token = token?;
        let word = token.kind != Kind::Punctuator;
        if after_word && word {
            out.push(' ');
        }
        out.push_str(token.value);
        after_word = word;
    }
    Ok(out)
}

"""))

# ---- formatter
s2("fm-style-field", (F, "    pub fn start_argument(&mut self) {\n        if self.style.multiline_arguments {\n            self.endline();\n            self.indent();\n        }", "    pub fn start_argument(&mut self) {\n        if self.style.multiline_arguments {\n            self.break_line();\n        }"), (F, "    fn inc_indent(&mut self) {", "    fn break_line(&mut self) {\n        self.endline();\n        self.indent();\n    }\n\n    fn inc_indent(&mut self) {"))
s2("fm-newstr", F, "            buf: String::with_capacity(1024),", "            buf: String::new(),")
s2("fm-width", (F, "    fn inc_indent(&mut self) {\n        self.indent += self.style.indent as usize;", "    fn width(&self) -> usize {\n        self.style.indent as usize\n    }\n\n    fn inc_indent(&mut self) {\n        self.indent += self.width();"), (F, "            .checked_sub(self.style.indent as usize)", "            .checked_sub(self.width())"))
s2("fm-width-usize", (F, "pub struct Style {\n    indent: u32,", "pub struct Style {\n    indent: usize,"), (F, "        self.indent = indent;\n", "        self.indent = indent as usize;\n"), (F, "self.indent += self.style.indent as usize;\n            for", "self.indent += self.style.indent;\n            for"))
s2("fm-indent-ext", F, "        for _ in 0..self.indent {\n            self.buf.push(' ');\n        }", "        let n = self.indent;\n        self.buf.extend(std::iter::repeat(' ').take(n));")
s2("fm-indent-rev", F, "        for _ in 0..self.indent {\n            self.buf.push(' ');\n        }", "        let mut left = self.indent;\n        while left > 0 {\n            self.buf.push(' ');\n            left -= 1;\n        }")
s2("fm-indent-repeat", F, "        for _ in 0..self.indent {\n            self.buf.push(' ');\n        }", "        self.buf += &\" \".repeat(self.indent);")
s2("fm-indent-pad", F, "        for _ in 0..self.indent {\n            self.buf.push(' ');\n        }", "        use std::fmt::Write;\n        write!(self.buf, \"{:1$}\", \"\", self.indent).unwrap();")
s2("fm-push", (F, "    pub fn endline(&mut self) {\n        self.buf.push('\\n');", "    pub fn endline(&mut self) {\n        self.write(\"\\n\");"))
s2("fm-margin", F, "        if !self.buf.is_empty() {\n            self.buf.push('\\n');\n        }", "        if self.buf.is_empty() {\n            return;\n        }\n        self.endline();")
s2("fm-margin-len", F, "        if !self.buf.is_empty() {", "        if self.buf.len() > 0 {")
s2("fm-delim", F, "        self.buf.push(',');\n        if !self.style.multiline_arguments {\n            self.buf.push(' ');\n        }", "        self.write(if self.style.multiline_arguments { \",\" } else { \", \" });")
s2("fm-delim-match", F, "        self.buf.push(',');\n        if !self.style.multiline_arguments {\n            self.buf.push(' ');\n        }", "        match self.style.multiline_arguments {\n            true => self.buf.push_str(\",\"),\n            false => self.buf.push_str(\", \"),\n        }")
s2("fm-endblock", F, "        self.dec_indent();\n        self.indent();\n        self.buf.push('}');\n        self.endline();", "        self.dec_indent();\n        self.indent();\n        self.write(\"}\\n\");")
s2("fm-startblock", F, "        self.buf.push('{');\n        self.endline();\n        self.inc_indent();", "        self.inc_indent();\n        self.write(\"{\\n\");")
s2("fm-endarg", F, "            self.endline();\n            self.dec_indent();\n            self.indent();", "            self.dec_indent();\n            self.endline();\n            self.indent();")
s2("fm-endarg-early", F, "        if self.style.multiline_arguments {\n            self.endline();\n            self.dec_indent();\n            self.indent();\n        }\n        self.buf.push(close_char);", "        let multiline = self.style.multiline_arguments;\n        if multiline {\n            self.endline();\n            self.dec_indent();\n            self.indent();\n        }\n        self.buf.push(close_char);")
s2("fm-dirs", F, "    for dir in dirs {\n        f.write(\" \");\n        dir.display(f);\n    }", "    dirs.iter().for_each(|dir| {\n        f.write(\" \");\n        dir.display(f);\n    });")
s2("fm-dec-match", F, "        self.indent = self\n            .indent\n            .checked_sub(self.style.indent as usize)\n            .expect(\"negative indent\");", "        match self.indent.checked_sub(self.style.indent as usize) {\n            Some(indent) => self.indent = indent,\n            None => panic!(\"negative indent\"),\n        }")
s2("fm-dec-assert", F, "        self.indent = self\n            .indent\n            .checked_sub(self.style.indent as usize)\n            .expect(\"negative indent\");", "        let width = self.style.indent as usize;\n        assert!(self.indent >= width, \"negative indent\");\n        self.indent -= width;")
