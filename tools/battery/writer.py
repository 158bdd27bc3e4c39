F = "format.rs"
def b(i, *e): bug("P07", i, *e)
def s(i, *e): same(i, *e)
COND = "if !has_newline || has_nonprintable || all_indented || loses_blank || line_blank {"
LINE = "                if !line.is_empty() {\n                    self.indent();\n                    self.write(&line.replace(r#\"\"\"\"\"#, r#\"\\\"\"\"\"#));\n                }\n                self.endline();\n"
FOR = "            for line in s.lines() {\n" + LINE + "            }\n"
SCAN = "                '\\n' => {\n                    if line_blank && !(has_newline && line_start) {\n                        loses_blank = true;\n                    }\n                    has_newline = true;\n                    line_blank = true;\n                }\n"
ESC = "                    '\\u{0020}'.. => self.buf.push(c),\n                    _ => write!(&mut self.buf, \"\\\\u{:04x}\", c as u32).unwrap(),\n"
RAW = "            for c in s.chars() {\n                match c {\n                    '\\r' => self.write(r\"\\r\"),\n                    '\\n' => self.write(r\"\\n\"),\n                    '\\t' => self.write(r\"\\t\"),\n                    '\"' => self.write(\"\\\\\\\"\"),\n                    '\\\\' => self.write(r\"\\\\\"),\n" + ESC + "                }\n            }\n"
BLK = "            self.buf.push_str(r#\"\"\"\"\"#);\n            self.endline();\n            self.indent += self.style.indent as usize;\n" + FOR + "            self.indent -= self.style.indent as usize;\n            self.indent();\n            self.buf.push_str(r#\"\"\"\"\"#);\n"
# ---- quoted form
b("w-r", F, "                    '\\r' => self.write(r\"\\r\"),\n", "                    '\\r' => self.write(r\"\\n\"),\n")
b("w-slash", F, "                    '\\\\' => self.write(r\"\\\\\"),\n", "")
b("w-quote", F, "                    '\"' => self.write(\"\\\\\\\"\"),\n", "")
b("w-nl", F, "                    '\\n' => self.write(r\"\\n\"),\n", "                    '\\n' => self.write(\"\\\\n\\\\r\"),\n")
s("w-noarm", F, "                    '\\n' => self.write(r\"\\n\"),\n", "")
b("w-x", F, "\\\\u{:04x}", "\\\\u{:x}")
b("w-dec", F, "\\\\u{:04x}", "\\\\u{:04}")
b("w-3", F, "\\\\u{:04x}", "\\\\u{:03x}")
b("w-pad", F, "\\\\u{:04x}", "\\\\u{:4x}")
b("w-alt", F, "\\\\u{:04x}", "\\\\u{:#06x}")
b("w-five", F, "\\\\u{:04x}", "\\\\u{:05x}")
b("w-brace", F, "\\\\u{:04x}", "\\\\u{{{:x}}}")
s("w-upper", F, "\\\\u{:04x}", "\\\\u{:04X}")
b("w-ascii", F, "'\\u{0020}'.. => self.buf.push(c),", "'\\u{0020}'..='\\u{007e}' => self.buf.push(c),")
s("w-bmp", F, "'\\u{0020}'.. => self.buf.push(c),", "'\\u{0020}'..='\\u{007e}' | '\\u{10000}'.. => self.buf.push(c),")
b("w-raw31", F, "'\\u{0020}'.. => self.buf.push(c),", "'\\u{0020}'..='\\u{d7ff}' | '\\u{e000}'..='\\u{ffff}' => self.buf.push(c),")
s("w-del", F, "'\\u{0020}'.. => self.buf.push(c),", "'\\u{007f}' => self.write(\"\\\\u007f\"),\n                    '\\u{0020}'.. => self.buf.push(c),")
b("w-del2", F, "'\\u{0020}'.. => self.buf.push(c),", "'\\u{007f}' => self.write(\"\\\\u007e\"),\n                    '\\u{0020}'.. => self.buf.push(c),")
b("w-lsep", F, "'\\u{0020}'.. => self.buf.push(c),", "'\\u{2028}' => self.write(r\"\\n\"),\n                    '\\u{0020}'.. => self.buf.push(c),")
b("w-bom", F, "'\\u{0020}'.. => self.buf.push(c),", "'\\u{feff}' => {}\n                    '\\u{0020}'.. => self.buf.push(c),")
b("w-bell", F, "                    '\\t' => self.write(r\"\\t\"),\n", "                    '\\t' => self.write(r\"\\t\"),\n                    '\\u{7}' => self.write(r\"\\b\"),\n")
s("w-backsp", F, "                    '\\t' => self.write(r\"\\t\"),\n", "                    '\\t' => self.write(r\"\\t\"),\n                    '\\u{8}' => self.write(r\"\\b\"),\n                    '\\u{c}' => self.write(r\"\\f\"),\n")
b("w-bell2", F, "                    '\\t' => self.write(r\"\\t\"),\n", "                    '\\t' => self.write(r\"\\t\"),\n                    '\\u{7}' => self.write(r\"\\a\"),\n")
s("w-solidus", F, "                    '\\t' => self.write(r\"\\t\"),\n", "                    '\\t' => self.write(r\"\\t\"),\n                    '/' => self.write(r\"\\/\"),\n")
b("w-rawdrop", F, "            self.buf.push('\"');\n            for c in s.chars() {", "            self.buf.push('\"');\n            for c in s.trim_end().chars() {")
b("w-noclose", F, "                }\n            }\n            self.buf.push('\"');\n        } else {", "                }\n            }\n            if !s.ends_with('\"') {\n                self.buf.push('\"');\n            }\n        } else {")
b("w-empty", F, "            self.buf.push('\"');\n            for c in s.chars() {", "            if s.is_empty() {\n                return;\n            }\n            self.buf.push('\"');\n            for c in s.chars() {")
s("w-empty2", F, "            self.buf.push('\"');\n            for c in s.chars() {", "            if s.is_empty() {\n                self.buf.push_str(\"\\\"\\\"\");\n                return;\n            }\n            self.buf.push('\"');\n            for c in s.chars() {")
# ---- choice of the form
b("w-blank", F, COND, COND.replace(" || line_blank", ""))
b("w-loses", F, COND, COND.replace(" || loses_blank", ""))
b("w-allind", F, COND, COND.replace(" || all_indented", ""))
b("w-nonp", F, COND, COND.replace(" || has_nonprintable", ""))
s("w-nonl", F, COND, COND.replace("!has_newline || ", ""))
s("w-force", F, COND, COND.replace("!has_newline ||", "s.len() < 80 && !has_newline ||"))
s("w-never", F, COND, COND.replace("!has_newline", "!has_newline || s.contains('\\\\')"))
b("w-scan1", F, "if line_blank && !(has_newline && line_start) {", "if line_blank && !line_start {")
s("w-scan2", F, "if line_blank && !(has_newline && line_start) {", "if line_blank && !has_newline {")
s("w-scan3", F, "if line_blank && !(has_newline && line_start) {", "if line_blank {")
b("w-scan4", F, "                    has_newline = true;\n                    line_blank = true;\n", "                    has_newline = true;\n")
s("w-scan5", F, "            line_start = c == '\\n';\n", "            line_start = false;\n")
b("w-scan6", F, "                '\\t' | ' ' => {}\n                '\\u{0021}'.. => {", "                '\\t' => {}\n                '\\u{0020}'.. => {")
b("w-scan7", F, "                '\\t' | ' ' => {}\n                '\\u{0021}'.. => {", "                '\\r' | '\\t' | ' ' => {}\n                '\\u{0021}'.. => {")
s("w-scan8", F, "                '\\t' | ' ' => {}\n                '\\u{0021}'.. => {", "                ' ' => {}\n                '\\u{0021}'.. => {")
s("w-scan9", F, "                '\\t' | ' ' => {}\n                '\\u{0021}'.. => {", "                '\\t' | ' ' => {}\n                '\\u{000B}' | '\\u{0021}'.. => {")
b("w-break", F, "            line_start = c == '\\n';\n", "            line_start = c == '\\n';\n            if has_newline && !all_indented && !line_blank {\n                break;\n            }\n")
# ---- block form
b("w-tq", F, "self.write(&line.replace(r#\"\"\"\"\"#, r#\"\\\"\"\"\"#));", "self.write(line);")
b("w-tqall", F, "self.write(&line.replace(r#\"\"\"\"\"#, r#\"\\\"\"\"\"#));", "self.write(&line.replace('\"', \"\\\\\\\"\"));")
b("w-esc", F, "self.write(&line.replace(r#\"\"\"\"\"#, r#\"\\\"\"\"\"#));", "self.write(&line.replace('\\\\', \"\\\\\\\\\").replace(r#\"\"\"\"\"#, r#\"\\\"\"\"\"#));")
s("w-noempty2", F, LINE, "                self.indent();\n                self.write(&line.replace(r#\"\"\"\"\"#, r#\"\\\"\"\"\"#));\n                self.endline();\n")
b("w-noindent", F, "                if !line.is_empty() {\n                    self.indent();\n", "                if !line.is_empty() {\n                    if !line.starts_with(' ') {\n                        self.indent();\n                    }\n")
b("w-trim", F, "self.write(&line.replace(", "self.write(&line.trim_end().replace(")
b("w-skip", F, LINE, "                if line.is_empty() {\n                    continue;\n                }\n                self.indent();\n                self.write(&line.replace(r#\"\"\"\"\"#, r#\"\\\"\"\"\"#));\n                self.endline();\n")
b("w-first", F, "            self.buf.push_str(r#\"\"\"\"\"#);\n            self.endline();\n            self.indent += ", "            self.buf.push_str(r#\"\"\"\"\"#);\n            self.indent += ")
b("w-close", F, "            self.indent -= self.style.indent as usize;\n            self.indent();\n            self.buf.push_str(r#\"\"\"\"\"#);\n", "            self.indent -= self.style.indent as usize;\n            self.buf.pop();\n            self.buf.push_str(r#\"\"\"\"\"#);\n")
s("w-close2", F, "            self.indent -= self.style.indent as usize;\n            self.indent();\n            self.buf.push_str(r#\"\"\"\"\"#);\n", "            self.indent();\n            self.indent -= self.style.indent as usize;\n            self.buf.push_str(r#\"\"\"\"\"#);\n")
s("w-while", F, FOR, "            let mut lines = s.lines();\n            while let Some(line) = lines.next() {\n" + LINE + "            }\n")
s("w-foreach", F, FOR, "            s.lines().for_each(|line| {\n" + LINE + "            });\n")
s("w-cont", F, LINE, "                if line.is_empty() {\n                    self.endline();\n                    continue;\n                }\n                self.indent();\n                self.write(&line.replace(r#\"\"\"\"\"#, r#\"\\\"\"\"\"#));\n                self.endline();\n")
s("w-let", F, "self.write(&line.replace(r#\"\"\"\"\"#, r#\"\\\"\"\"\"#));", "let escaped = line.replace(\"\\\"\\\"\\\"\", \"\\\\\\\"\\\"\\\"\");\n                    self.buf.push_str(&escaped);")
s("w-pre", (F, FOR, "            let escaped = s.replace(r#\"\"\"\"\"#, r#\"\\\"\"\"\"#);\n            for line in escaped.lines() {\n" + LINE.replace("&line.replace(r#\"\"\"\"\"#, r#\"\\\"\"\"\"#)", "line") + "            }\n"))
s("w-incdec", (F, "            self.indent += self.style.indent as usize;\n            for line", "            self.inc_indent();\n            for line"), (F, "            self.indent -= self.style.indent as usize;\n            self.indent();", "            self.dec_indent();\n            self.indent();"))
s("w-helper", (F, BLK, "            self.write_block(s);\n"), (F, "    fn inc_indent(&mut self) {", "    fn write_block(&mut self, s: &str) {\n" + BLK.replace("            ", "        ") + "    }\n\n    fn inc_indent(&mut self) {"))
s("w-helper2", (F, "            use std::fmt::Write;\n            self.buf.push('\"');\n" + RAW + "            self.buf.push('\"');\n", "            self.write_plain(s);\n"), (F, "    fn inc_indent(&mut self) {", "    fn write_plain(&mut self, s: &str) {\n        use std::fmt::Write;\n        self.buf.push('\"');\n" + RAW.replace("            ", "        ") + "        self.buf.push('\"');\n    }\n\n    fn inc_indent(&mut self) {"))
s("w-charhelper", (F, RAW, "            for c in s.chars() {\n                self.write_escaped(c);\n            }\n"), (F, "            use std::fmt::Write;\n            self.buf.push('\"');\n", "            self.buf.push('\"');\n"), (F, "    fn inc_indent(&mut self) {", "    fn write_escaped(&mut self, c: char) {\n        use std::fmt::Write;\n        match c {\n            '\\r' => self.write(r\"\\r\"),\n            '\\n' => self.write(r\"\\n\"),\n            '\\t' => self.write(r\"\\t\"),\n            '\"' => self.write(\"\\\\\\\"\"),\n            '\\\\' => self.write(r\"\\\\\"),\n            c if c >= ' ' => self.buf.push(c),\n            c => write!(&mut self.buf, \"\\\\u{:04x}\", c as u32).unwrap(),\n        }\n    }\n\n    fn inc_indent(&mut self) {"))
s("w-fmt", F, "_ => write!(&mut self.buf, \"\\\\u{:04x}\", c as u32).unwrap(),", "_ => self.buf.push_str(&format!(\"\\\\u{:04x}\", c as u32)),")
s("w-fmtc", F, "_ => write!(&mut self.buf, \"\\\\u{:04x}\", c as u32).unwrap(),", "_ => {\n                        let code = c as u32;\n                        write!(self.buf, \"\\\\u{code:04x}\").unwrap();\n                    }")
s("w-00", F, "_ => write!(&mut self.buf, \"\\\\u{:04x}\", c as u32).unwrap(),", "_ => write!(&mut self.buf, \"\\\\u00{:02x}\", c as u32).unwrap(),")
s("w-lookup", F, RAW, "            for c in s.chars() {\n                let esc = match c {\n                    '\\r' => r\"\\r\",\n                    '\\n' => r\"\\n\",\n                    '\\t' => r\"\\t\",\n                    '\"' => \"\\\\\\\"\",\n                    '\\\\' => r\"\\\\\",\n                    '\\u{0020}'.. => {\n                        self.buf.push(c);\n                        continue;\n                    }\n                    _ => {\n                        write!(&mut self.buf, \"\\\\u{:04x}\", c as u32).unwrap();\n                        continue;\n                    }\n                };\n                self.write(esc);\n            }\n")
s("w-charsnext", F, RAW, RAW.replace("for c in s.chars() {", "let mut it = s.chars();\n            while let Some(c) = it.next() {"))
s("w-early", (F, "            self.buf.push('\"');\n        } else {\n" + BLK + "        }\n", "            self.buf.push('\"');\n            return;\n        }\n" + BLK.replace("            ", "        ")))
s("w-neg", (F, COND, "let block = has_newline && !has_nonprintable && !all_indented && !loses_blank && !line_blank;\n        if !block {"))
s("w-ifscan", F, "                '\\t' | ' ' => {}\n                '\\u{0021}'.. => {\n                    if line_start {\n                        all_indented = false;\n                    }\n                    line_blank = false;\n                }\n                _ => has_nonprintable = true,", "                _ if c == '\\t' || c == ' ' => {}\n                _ if c < ' ' => has_nonprintable = true,\n                _ => {\n                    all_indented &= !line_start;\n                    line_blank = false;\n                }")
s("w-ctl", (F, "                _ => has_nonprintable = true,\n", "                _ => {}\n"), (F, "        let mut has_nonprintable = false;\n", "        let has_nonprintable = s.chars().any(|c| c < ' ' && c != '\\n' && c != '\\t');\n"))
s("w-contains", (F, COND, "if !s.contains('\\n') || has_nonprintable || all_indented || loses_blank || line_blank {"))
s("w-lastblank", (F, COND, "if !has_newline || has_nonprintable || all_indented || loses_blank || line_blank || s.ends_with('\\n') {"))
b("w-contr2", (F, "                _ => has_nonprintable = true,\n", "                _ => {}\n"), (F, "        let mut has_nonprintable = false;\n", "        let has_nonprintable = s.chars().any(|c| c == '\\0');\n"))
s("w-temp", F, "            self.buf.push('\"');\n" + RAW + "            self.buf.push('\"');\n", "            let mut out = String::with_capacity(s.len() + 2);\n            out.push('\"');\n" + RAW.replace("self.write(", "out.push_str(").replace("self.buf", "out") + "            out.push('\"');\n            self.write(&out);\n")
s("w-asm", F, "            use std::fmt::Write;\n            self.buf.push('\"');\n", "            use std::fmt::Write;\n            self.buf.reserve(s.len() + 2);\n            self.buf.push('\"');\n")
s("w-extend", F, "                    '\\u{0020}'.. => self.buf.push(c),", "                    '\\u{0020}'.. => self.buf.extend(Some(c)),")
s("w-lineflags", (F, FOR, "            for line in s.lines() {\n                let empty = line.len() == 0;\n                if !empty {\n                    self.indent();\n                    self.write(&line.replace(r#\"\"\"\"\"#, r#\"\\\"\"\"\"#));\n                }\n                self.endline();\n            }\n"))
s("w-enum", (F, FOR, "            for (i, line) in s.lines().enumerate() {\n                if i > 0 {\n                    self.endline();\n                }\n                if !line.is_empty() {\n                    self.indent();\n                    self.write(&line.replace(r#\"\"\"\"\"#, r#\"\\\"\"\"\"#));\n                }\n            }\n            self.endline();\n"))
s("w-split", F, "for line in s.lines() {", "for line in s.split('\\n') {")
