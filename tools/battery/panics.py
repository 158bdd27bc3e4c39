T = "tokenizer.rs"; C = "common.rs"; QG = "query/grammar.rs"; SG = "schema/grammar.rs"; M = "query/minify.rs"; H = "helpers.rs"
def b(i, *e): bug("P12", i, *e)
def s(i, *e): same(i, *e)
b("pa-int-unwrap", C, "        .and_then(|tok| tok.value.parse())\n        .map(Number)", "        .map(|tok| Number(tok.value.parse().unwrap()))")
b("pa-block-byte", T, "if !tail[..end_idx].ends_with('\\\\') {", "if tail.as_bytes()[end_idx - 1] != b'\\\\' {")
b("pa-float-order", T, "(Some(e), Some(r)) if e < r => false,", "(Some(e), Some(r)) if e < r => unreachable!(),")
s("pas-float-slice", T, "        (Some(e), Some(r)) if e < r => false,\n", "")
b("pa-exp-slice", T, "    if value.is_empty() {\n        return false;\n    }\n    let first", "    let first")
b("pa-limit-sub", T, "                self.recursion_limit = self\n                    .recursion_limit\n                    .checked_sub(1)\n                    .ok_or_else(|| Error::message_static_message(\"Recursion limit exceeded\"))?;", "                self.recursion_limit -= 1;")
b("pa-dot-slice", T, "if iter.as_str().starts_with(\"..\") {", "if &self.buf[self.off + 1..self.off + 3] == \"..\" {")
b("pa-block-tail", T, "let tail = &iter.as_str()[2..];", "let tail = &iter.as_str()[2..];\n                    debug_assert!(tail.len() >= 3);")
b("pa-surrogate", C, "                            _ => {\n                                return Err(Error::Unexpected(Info::Owned(\n                                    format_args!(\n                                        \"{} is not a valid", "                            Ok(None) => unreachable!(\"surrogate\"),\n                            _ => {\n                                return Err(Error::Unexpected(Info::Owned(\n                                    format_args!(\n                                        \"{} is not a valid")
b("pa-hex-expect", C, "                            match chars.next() {\n                                Some(inner_c) if", "                            match Some(chars.next().expect(\"four digits\")) {\n                                Some(inner_c) if")
b("pa-indent-slice", C, "line.get(common_indent..).unwrap_or(\"\")", "&line[common_indent..]")
b("pa-blank-unwrap", C, "    if first_non_empty_line.is_none() {\n        // The block string contains only whitespace.\n        return Ok(\"\".to_string());\n    }\n", "")
b("pa-capacity", C, "String::with_capacity(src.len() - 6)", "String::with_capacity(src.len() - 8)")
b("pa-descr", SG, "                DirectiveDefinition(ref mut d) => d.description = descr,\n                SchemaDefinition(_) => unreachable!(),", "                DirectiveDefinition(ref mut d) if d.description.is_none() && d.arguments.len() < 2 => d.description = descr,\n                DirectiveDefinition(_) => unreachable!(),\n                SchemaDefinition(_) => unreachable!(),")
b("pa-defs-assert", QG, "        .map(|d| Document { definitions: d })", "        .map(|d: Vec<Definition<'a, S>>| {\n            debug_assert!(d.len() < 1000);\n            Document { definitions: d }\n        })")
b("pa-min-last", M, "                if prev_was_punctuator && is_non_punctuator {", "                if prev_was_punctuator && is_non_punctuator && !bits.last().unwrap().ends_with(\"\\\"\") || bits[bits.len() - 1] == \"x\" {")
b("pa-min-byte", M, "                bits.push(token.value);", "                bits.push(&token.value[..token.value.len().max(2)]);")
b("pa-tokendisplay", T, "write!(f, \"{}[{:?}]\", self.value, self.kind)", "write!(f, \"{}[{:?}]\", &self.value[..self.value.len().min(20)], self.kind)")
b("pa-rest-slice", QG, "Ok((doc, &s[tokens.offset()..]))", "Ok((doc, &s[tokens.offset() + 1..]))")
b("pa-offset", T, "    pub(crate) fn offset(&self) -> usize {\n        self.off", "    pub(crate) fn offset(&self) -> usize {\n        self.off + 1")
b("pa-comment", T, "                    while let Some((_, cur_char)) = iter.next() {", "                    let hash = idx;\n                    while let Some((_, cur_char)) = iter.next() {\n                        debug_assert!(iter.as_str().len() + hash + 2 != self.buf.len() - self.off);")
b("pa-name-slice", T, "                        _ => return self.advance_token(Name, idx),", "                        _ => {\n                            debug_assert!(self.buf.is_char_boundary(self.off + idx + 1));\n                            return self.advance_token(Name, idx);\n                        }")
b("pa-nonnull", C, "            if strict {\n                Type::NonNullType(Box::new(typ))", "            if strict {\n                assert!(!matches!(typ, Type::ListType(ref t) if matches!(**t, Type::ListType(_))));\n                Type::NonNullType(Box::new(typ))")
s("pas-first", C, "    if first_non_empty_line.is_none() {\n        // The block string contains only whitespace.\n        return Ok(\"\".to_string());\n    }\n    let first_non_empty_line = first_non_empty_line.unwrap();", "    let first_non_empty_line = match first_non_empty_line {\n        Some(idx) => idx,\n        None => return Ok(String::new()),\n    };\n    debug_assert!(first_non_empty_line <= last_non_empty_line);")
s("pas-int", T, "            && value[1..].chars().all(|x| x.is_ascii_digit()))", "            && value.get(1..).expect(\"never empty\").chars().all(|x| x.is_ascii_digit()))")
s("pas-get", T, "                    let value = &self.buf[self.off..][..len];\n                    if !check_int(value) {", "                    let value = self.buf.get(self.off..self.off + len).expect(\"inside the text\");\n                    if !check_int(value) {")
s("pas-limit", T, "self.recursion_limit = self.recursion_limit.saturating_add(1);", "self.recursion_limit += 1;")
s("pas-sub", T, "                self.recursion_limit = self\n                    .recursion_limit\n                    .checked_sub(1)\n                    .ok_or_else(|| Error::message_static_message(\"Recursion limit exceeded\"))?;", "                if self.recursion_limit == 0 {\n                    return Err(Error::message_static_message(\"Recursion limit exceeded\"));\n                }\n                self.recursion_limit -= 1;")
s("pas-assert", T, "        self.position.column += size;\n        self.off += size;\n        Ok((kind, size))", "        debug_assert!(size > 0);\n        self.position.column += size;\n        self.off += size;\n        Ok((kind, size))")
s("pas-exp", T, "    let first = value.chars().next().unwrap();\n", "    let first = match value.chars().next() {\n        Some(c) => c,\n        None => unreachable!(),\n    };\n")
s("pas-min", M, "                bits.push(token.value);", "                bits.push(token.value);\n                debug_assert!(!bits.is_empty());")
s("pas-display", T, "write!(f, \"{}[{:?}]\", self.value, self.kind)", "f.write_str(self.value)?;\n        write!(f, \"[{:?}]\", self.kind)")
s("pas-slash", C, "chars.next().expect(\"slash cant be at the end\")", "chars.next().unwrap()")
