F = "format.rs"; Q = "query/format.rs"; S = "schema/format.rs"
OPS = "        if let Some(ref name) = self.name {\n            f.write(\" \");\n            f.write(name.as_ref());\n        }\n        if !self.variable_definitions.is_empty() {\n            f.write(\"(\");\n            self.variable_definitions[0].display(f);\n            for var in &self.variable_definitions[1..] {\n                f.write(\", \");\n                var.display(f);\n            }\n            f.write(\")\");\n        }\n        format_directives(&self.directives, f);\n        f.write(\" \");\n        f.start_block();\n        for item in &self.selection_set.items {\n            item.display(f);\n        }\n        f.end_block();\n"
def op(w): return "        f.margin();\n        f.indent();\n        f.write(\"%s\");\n" % w + OPS
VARS = "            self.variable_definitions[0].display(f);\n            for var in &self.variable_definitions[1..] {\n                f.write(\", \");\n                var.display(f);\n            }\n"
IMPL = "            f.write(self.implements_interfaces[0].as_ref());\n            for name in &self.implements_interfaces[1..] {\n                f.write(\" & \");\n                f.write(name.as_ref());\n            }\n"
UNI = "            f.write(self.types[0].as_ref());\n            for typ in &self.types[1..] {\n                f.write(\" | \");\n                f.write(typ.as_ref());\n            }\n"
# ---- P03: query round trip
bug("P03", "q-mutation-kw", Q, op("mutation"), op("query"))
bug("P03", "q-mutation-vars-dropped", Q, op("mutation"), op("mutation").replace("self.variable_definitions.is_empty()", "self.variable_definitions.is_empty() && self.name.is_some()"))
bug("P03", "q-sub-directives-dropped", Q, op("subscription"), op("subscription").replace("        format_directives(&self.directives, f);\n", ""))
bug("P03", "q-query-directives-unnamed", Q, op("query"), op("query").replace("        format_directives(&self.directives, f);\n", "        if self.name.is_some() {\n            format_directives(&self.directives, f);\n        }\n"))
bug("P03", "q-query-short", Q, op("query"), op("query").replace("        f.write(\"query\");\n", "        if self.name.is_some() || !self.directives.is_empty() {\n            f.write(\"query\");\n        }\n"))
bug("P03", "q-alias-swap", Q, "            f.write(alias.as_ref());\n            f.write(\": \");\n        }\n        f.write(self.name.as_ref());\n        format_arguments", "            f.write(self.name.as_ref());\n            f.write(\": \");\n            f.write(alias.as_ref());\n        } else {\n            f.write(self.name.as_ref());\n        }\n        format_arguments")
bug("P03", "q-alias-same", Q, "        if let Some(ref alias) = self.alias {", "        if let Some(alias) = self.alias.as_ref().filter(|_| self.arguments.is_empty()) {")
bug("P03", "q-field-dirs-order", Q, "        format_arguments(&self.arguments, f);\n        format_directives(&self.directives, f);\n        if !self.selection_set", "        format_directives(&self.directives, f);\n        format_arguments(&self.arguments, f);\n        if !self.selection_set")
bug("P03", "q-inline-dirs", Q, "            cond.display(f);\n        }\n        format_directives(&self.directives, f);", "            cond.display(f);\n        } else {\n            format_directives(&self.directives, f);\n        }")
bug("P03", "q-cond-glue", Q, "                f.write(\"on \");", "                f.write(\"on\");")
bug("P03", "q-spread-dirs", Q, "        f.write(self.fragment_name.as_ref());\n        format_directives(&self.directives, f);", "        f.write(self.fragment_name.as_ref());")
bug("P03", "q-frag-dirs", Q, "        self.type_condition.display(f);\n        format_directives(&self.directives, f);", "        format_directives(&self.directives, f);\n        f.write(\" \");\n        self.type_condition.display(f);")
bug("P03", "q-args-two", Q, "        for arg in &arguments[1..] {\n            f.deliniate_argument();", "        for arg in arguments.iter().skip(2) {\n            f.deliniate_argument();")
bug("P03", "q-args-mixed", Q, "            f.write(arg.0.as_ref());\n            f.write(\": \");\n            arg.1.display(f);", "            f.write(arg.0.as_ref());\n            f.write(\": \");\n            arguments[0].1.display(f);")
bug("P03", "q-default-dropped", Q, "        if let Some(ref default) = self.default_value {\n            f.write(\" = \");", "        if let Some(default) = self.default_value.as_ref().filter(|v| !matches!(**v, Value::Null)) {\n            f.write(\" = \");")
bug("P03", "q-default-colon", Q, "            f.write(\" = \");\n            default.display(f);", "            f.write(\": \");\n            default.display(f);")
bug("P03", "q-delim-none", (F, "        self.buf.push(',');\n        if !self.style.multiline_arguments {\n            self.buf.push(' ');\n        }", "        if !self.style.multiline_arguments && self.style.indent > 0 {\n            self.buf.push(',');\n            self.buf.push(' ');\n        }"))
bug("P03", "q-list-first", Q, "                    for item in &items[1..] {\n                        f.deliniate_argument();\n                        f.start_argument();\n                        item.display(f);\n                    }", "                    for item in &items[1..] {\n                        f.deliniate_argument();\n                        f.start_argument();\n                        if !matches!(*item, Value::Null) {\n                            item.display(f);\n                        }\n                    }")
bug("P03", "q-object-shorthand", Q, "                    f.write(name.as_ref());\n                    f.write(\": \");\n                    value.display(f);", "                    f.write(name.as_ref());\n                    if !matches!(*value, Value::Null) {\n                        f.write(\": \");\n                        value.display(f);\n                    }")
bug("P03,P04", "q-nonnull-list", Q, "            Type::NonNullType(ref typ) => {\n                typ.display(f);\n                f.write(\"!\");", "            Type::NonNullType(ref typ) => {\n                typ.display(f);\n                if let Type::NamedType(_) = **typ {\n                    f.write(\"!\");\n                }")
bug("P03,P04", "q-float-bound", Q, "if val.abs() < 1e16 =>", "if val.abs() < 1e26 =>")
bug("P03,P04", "q-float-round", Q, "=> f.write(&format!(\"{:?}\", val)),", "=> f.write(&format!(\"{:e}\", val.round())),")
bug("P03,P04", "q-float-prec", Q, "=> f.write(&format!(\"{}\", val)),", "=> f.write(&format!(\"{:.6}\", val)),")
bug("P03,P04", "q-int-hex", Q, "Value::Int(ref num) => f.write(&format!(\"{}\", num.0)),", "Value::Int(ref num) => f.write(&format!(\"{:+}\", num.0)),")
bug("P03,P04", "q-int-32", Q, "Value::Int(ref num) => f.write(&format!(\"{}\", num.0)),", "Value::Int(ref num) => f.write(&format!(\"{}\", num.0 as i32)),")
bug("P03,P04", "q-string-debug", Q, "Value::String(ref val) => f.write_quoted(val),", "Value::String(ref val) if val.is_ascii() => f.write(&format!(\"{:?}\", val)),\n            Value::String(ref val) => f.write_quoted(val),")
bug("P03,P04", "q-enum-bool", Q, "Value::Boolean(false) => f.write(\"false\"),", "Value::Boolean(false) => f.write(\"False\"),")
bug("P03", "q-variable-glue", Q, "                f.write(\"$\");\n                f.write(name.as_ref());", "                f.write(\"@\");\n                f.write(name.as_ref());")
bug("P03", "q-selset-empty", Q, "        if !self.selection_set.items.is_empty() {", "        if self.selection_set.items.len() > 1 {")
bug("P03", "q-op-last", Q, "        for item in &self.definitions {\n            item.display(f);\n        }", "        for (i, item) in self.definitions.iter().enumerate() {\n            if i == 0 || !matches!(item, Definition::Operation(OperationDefinition::SelectionSet(_))) {\n                item.display(f);\n            }\n        }")
bug("P03", "q-indent0-glue", Q, "        f.write(\"...\");\n        f.write(self.fragment_name.as_ref());", "        f.write(\"...\");\n        if self.fragment_name.as_ref().len() > 40 {\n            f.endline();\n            f.write(\"\\\\\");\n        }\n        f.write(self.fragment_name.as_ref());")
bug("P03,P05", "q-endline-style", F, "    pub fn endline(&mut self) {\n        self.buf.push('\\n');", "    pub fn endline(&mut self) {\n        if self.style.indent > 0 || self.indent == 0 {\n            self.buf.push('\\n');\n        }")
bug("P03,P04,P05", "f-comment", F, "    pub fn start_block(&mut self) {\n        self.buf.push('{');\n        self.endline();", "    pub fn start_block(&mut self) {\n        self.buf.push('{');\n        if self.style.multiline_arguments {\n            self.buf.push_str(\" # block\");\n        }\n        if self.style.indent > 0 {\n            self.endline();\n        }")
bug("P03,P04,P05", "f-args-open", F, "        self.buf.push(open_char);\n        if self.style.multiline_arguments {\n            self.inc_indent();\n        }", "        if self.style.multiline_arguments && self.style.indent > 64 {\n            self.buf.push('(');\n        } else {\n            self.buf.push(open_char);\n        }\n        if self.style.multiline_arguments {\n            self.inc_indent();\n        }")
# ---- P04: schema round trip
bug("P04", "s-schema-swap", S, "            f.write(\"mutation: \");", "            f.write(\"subscription: \");")
bug("P04", "s-schema-dirs", S, "        f.write(\"schema\");\n        format_directives(&self.directives, f);", "        f.write(\"schema\");")
bug("P04", "s-schema-else", S, "        if let Some(ref s) = self.subscription {", "        else if let Some(ref s) = self.subscription {")
bug("P04", "s-scalar-descr", S, "        description(&self.description, f);\n        f.indent();\n        f.write(\"scalar \");", "        f.indent();\n        f.write(\"scalar \");")
bug("P04", "s-scalar-ext-dirs", S, "        f.write(\"extend scalar \");\n        f.write(self.name.as_ref());\n        format_directives(&self.directives, f);", "        f.write(\"extend scalar \");\n        f.write(self.name.as_ref());")
bug("P04", "s-ext-type-kw", S, "        f.write(\"extend interface \");", "        f.write(\"extend type \");")
bug("P04", "s-impl-sep", S, "f.write(\" & \");", "f.write(\" | \");")
bug("P04", "s-impl-sep-space", S, "                f.write(\" & \");\n                f.write(name.as_ref());\n            }\n        }\n        format_directives(&self.directives, f);\n        format_fields(&self.fields, f);\n    }\n}\n\nimpl<'a, T> Displayable for ObjectTypeExtension", "                f.write(\", \");\n                f.write(name.as_ref());\n            }\n        }\n        format_directives(&self.directives, f);\n        format_fields(&self.fields, f);\n    }\n}\n\nimpl<'a, T> Displayable for ObjectTypeExtension")
bug("P04", "s-union-dirs-after", S, "        format_directives(&self.directives, f);\n        if !self.types.is_empty() {\n            f.write(\" = \");\n" + UNI + "        }\n", "        if !self.types.is_empty() {\n            f.write(\" = \");\n" + UNI + "        }\n        format_directives(&self.directives, f);\n")
bug("P04", "s-union-last", S, "            for typ in &self.types[1..] {", "            for typ in self.types[1..].iter().take(63) {")
bug("P04", "s-enum-val-dirs", S, "                f.write(val.name.as_ref());\n                format_directives(&val.directives, f);\n                f.endline();\n            }\n            f.end_block();\n        } else {\n            f.endline();\n        }\n    }\n}\n\nimpl<'a, T> Displayable for EnumTypeExtension", "                f.write(val.name.as_ref());\n                format_directives(&self.directives, f);\n                f.endline();\n            }\n            f.end_block();\n        } else {\n            f.endline();\n        }\n    }\n}\n\nimpl<'a, T> Displayable for EnumTypeExtension")
bug("P04", "s-enum-val-descr", S, "                if let Some(ref descr) = val.description {\n                    f.write_quoted(descr.as_ref());\n                    f.write(\" \");\n                }\n", "")
bug("P04", "s-enum-descr-self", S, "                if let Some(ref descr) = val.description {", "                if let Some(ref descr) = self.description {")
bug("P04", "s-input-default", S, "        if let Some(ref def) = self.default_value {\n            f.write(\" = \");\n            def.display(f);\n        }\n        format_directives(&self.directives, f);", "        format_directives(&self.directives, f);\n        if let Some(ref def) = self.default_value {\n            f.write(\" = \");\n            def.display(f);\n        }")
bug("P04", "s-input-descr-skip", S, "        if let Some(ref descr) = self.description {\n            f.write_quoted(descr.as_ref());\n            f.write(\" \");", "        if let Some(descr) = self.description.as_ref().filter(|d| !d.is_empty()) {\n            f.write_quoted(descr.as_ref());\n            f.write(\" \");")
bug("P04", "s-repeatable", S, "            f.write(\" repeatable\");", "            f.write(\" repeatable \");\n        } else if self.arguments.is_empty() {\n            f.write(\" repeatable\");")
bug("P04", "s-repeatable-args", S, "        if self.repeatable {", "        if self.repeatable && !self.arguments.is_empty() {")
bug("P04", "s-loc-sep", S, "                    f.write(\" | \");\n                }\n                f.write(loc", "                    f.write(\" \");\n                }\n                f.write(loc")
bug("P04", "s-on-glue", S, "            f.write(\" \");\n            let mut first", "            let mut first")
bug("P04", "s-descr-trim", S, "        f.write_quoted(descr.as_ref());\n        f.endline();", "        f.write_quoted(descr.trim());\n        f.endline();")
bug("P04", "s-field-args-type", S, "        format_arguments(&self.arguments, f);\n        f.write(\": \");", "        f.write(\": \");\n        format_arguments(&self.arguments, f);")
bug("P04", "s-field-descr-after", S, "        description(&self.description, f);\n        f.indent();\n        f.write(self.name.as_ref());", "        f.indent();\n        f.write(self.name.as_ref());\n        description(&self.description, f);")
bug("P04", "s-inputs-first", S, "        for fld in fields {\n            f.indent();\n            fld.display(f);\n            f.endline();\n        }", "        for fld in fields {\n            f.indent();\n            fld.display(f);\n            f.endline();\n        }\n        if fields.len() > 9 {\n            fields[0].display(f);\n        }")
bug("P04", "s-def-order", S, "        for item in &self.definitions {\n            item.display(f);\n        }", "        for item in self.definitions.iter().rev() {\n            item.display(f);\n        }")
bug("P04", "s-def-schema-first", S, "        for item in &self.definitions {\n            item.display(f);\n        }", "        for item in &self.definitions {\n            if let Definition::SchemaDefinition(_) = item {\n                item.display(f);\n            }\n        }\n        for item in &self.definitions {\n            if let Definition::SchemaDefinition(_) = item {\n            } else {\n                item.display(f);\n            }\n        }")
bug("P04", "s-loc-str", "schema/ast.rs", "            FragmentSpread => \"FRAGMENT_SPREAD\",", "            FragmentSpread => \"FRAGMENT_DEFINITION\",")
# ---- behaviour preserving
same("fmt-op-helper", (Q, op("query"), "        operation(\"query\", &self.name, &self.variable_definitions, &self.directives, &self.selection_set, f);\n"),
  (Q, op("mutation"), "        operation(\"mutation\", &self.name, &self.variable_definitions, &self.directives, &self.selection_set, f);\n"),
  (Q, op("subscription"), "        operation(\"subscription\", &self.name, &self.variable_definitions, &self.directives, &self.selection_set, f);\n"),
  (Q, "impl<'a, T: Text<'a>> Displayable for Query<'a, T> {", "fn operation<'a, T: Text<'a>>(\n    kw: &str,\n    name: &Option<T::Value>,\n    vars: &[VariableDefinition<'a, T>],\n    dirs: &[Directive<'a, T>],\n    set: &SelectionSet<'a, T>,\n    f: &mut Formatter,\n) {\n    f.margin();\n    f.indent();\n    f.write(kw);\n    if let Some(ref name) = *name {\n        f.write(\" \");\n        f.write(name.as_ref());\n    }\n    if !vars.is_empty() {\n        f.write(\"(\");\n        let mut first = true;\n        for v in vars {\n            if !first {\n                f.write(\", \");\n            }\n            first = false;\n            v.display(f);\n        }\n        f.write(\")\");\n    }\n    format_directives(dirs, f);\n    f.write(\" \");\n    block(&set.items, f);\n}\n\nfn block<'a, T: Text<'a>>(items: &[Selection<'a, T>], f: &mut Formatter) {\n    f.start_block();\n    for item in items {\n        item.display(f);\n    }\n    f.end_block();\n}\n\nimpl<'a, T: Text<'a>> Displayable for Query<'a, T> {"))
same("fmt-vars-enumerate", Q, VARS, "            for (i, var) in self.variable_definitions.iter().enumerate() {\n                if i > 0 {\n                    f.write(\", \");\n                }\n                var.display(f);\n            }\n")
same("fmt-vars-peek", Q, VARS, "            let mut it = self.variable_definitions.iter().peekable();\n            while let Some(var) = it.next() {\n                var.display(f);\n                if it.peek().is_some() {\n                    f.write(\", \");\n                }\n            }\n")
same("fmt-vars-splitfirst", Q, "        if !self.variable_definitions.is_empty() {\n            f.write(\"(\");\n" + VARS + "            f.write(\")\");\n        }", "        if let Some((first, rest)) = self.variable_definitions.split_first() {\n            f.write(\"(\");\n            first.display(f);\n            for var in rest {\n                f.write(\", \");\n                var.display(f);\n            }\n            f.write(\")\");\n        }")
same("fmt-vars-sep", Q, VARS, "            let mut sep = \"\";\n            for var in &self.variable_definitions {\n                f.write(sep);\n                var.display(f);\n                sep = \", \";\n            }\n")
same("fmt-vars-foreach", Q, VARS, "            self.variable_definitions[0].display(f);\n            self.variable_definitions[1..].iter().for_each(|var| {\n                f.write(\", \");\n                var.display(f);\n            });\n")
same("fmt-vars-while", Q, VARS, "            let mut i = 0;\n            while i < self.variable_definitions.len() {\n                if i != 0 {\n                    f.write(\", \");\n                }\n                self.variable_definitions[i].display(f);\n                i += 1;\n            }\n")
same("fmt-vars-range", Q, VARS, "            for i in 0..self.variable_definitions.len() {\n                if i != 0 {\n                    f.write(\", \");\n                }\n                self.variable_definitions[i].display(f);\n            }\n")
same("fmt-vars-last", Q, VARS, "            let n = self.variable_definitions.len();\n            for (i, var) in self.variable_definitions.iter().enumerate() {\n                var.display(f);\n                if i + 1 < n {\n                    f.write(\", \");\n                }\n            }\n")
same("fmt-items-foreach", Q, "        f.start_block();\n        for item in &self.items {\n            item.display(f);\n        }\n        f.end_block();", "        f.start_block();\n        self.items.iter().for_each(|item| item.display(f));\n        f.end_block();")
same("fmt-impl-join", S, "            f.write(\" implements \");\n" + IMPL, "            f.write(\" implements \");\n            let names: Vec<&str> = self.implements_interfaces.iter().map(|n| n.as_ref()).collect();\n            f.write(&names.join(\" & \"));\n")
same("fmt-union-join", S, UNI, "            let names = self.types.iter().map(|t| t.as_ref()).collect::<Vec<_>>();\n            f.write(&names.join(\" | \"));\n")
same("fmt-locs-join", S, "            let mut first = true;\n            for loc in &self.locations {\n                if first {\n                    first = false;\n                } else {\n                    f.write(\" | \");\n                }\n                f.write(loc.as_str());\n            }", "            let names: Vec<_> = self.locations.iter().map(|l| l.as_str()).collect();\n            f.write(&names.join(\" | \"));")
same("fmt-impl-helper", (S, "        if !self.implements_interfaces.is_empty() {\n            f.write(\" implements \");\n" + IMPL + "        }\n", "        interfaces(&self.implements_interfaces, f);\n"), (S, "        if !self.implements_interfaces.is_empty() {\n            f.write(\" implements \");\n" + IMPL + "        }\n", "        interfaces(&self.implements_interfaces, f);\n"),
  (S, "fn format_fields<", "fn interfaces<S: AsRef<str>>(names: &[S], f: &mut Formatter) {\n    if names.is_empty() {\n        return;\n    }\n    f.write(\" implements \");\n    f.write(names[0].as_ref());\n    for name in &names[1..] {\n        f.write(\" & \");\n        f.write(name.as_ref());\n    }\n}\n\nfn format_fields<"))
same("fmt-write-fmt", Q, "                f.write(\"$\");\n                f.write(name.as_ref());", "                f.write(&format!(\"${}\", name.as_ref()));")
same("fmt-str-concat", Q, "                f.write(\"on \");\n                f.write(name.as_ref());", "                let mut s = String::from(\"on \");\n                s.push_str(name.as_ref());\n                f.write(&s);")
same("fmt-num-to-string", Q, "Value::Int(ref num) => f.write(&format!(\"{}\", num.0)),", "Value::Int(ref num) => f.write(&num.0.to_string()),")
same("fmt-float-if", Q, "            Value::Float(val) if val.abs() < 1e16 => f.write(&format!(\"{}\", val)),\n            // all digits of a larger number would read as an integer\n            Value::Float(val) => f.write(&format!(\"{:?}\", val)),", "            Value::Float(val) => {\n                let text = if val.abs() < 1e16 {\n                    format!(\"{}\", val)\n                } else {\n                    format!(\"{:?}\", val)\n                };\n                f.write(&text);\n            }")
same("fmt-float-debug", Q, "            Value::Float(val) if val.abs() < 1e16 => f.write(&format!(\"{}\", val)),\n", "            Value::Float(val) if -1e16 < val && val < 1e16 => f.write(&format!(\"{}\", val)),\n")
same("fmt-bool-tostring", Q, "            Value::Boolean(true) => f.write(\"true\"),\n            Value::Boolean(false) => f.write(\"false\"),", "            Value::Boolean(b) => f.write(if b { \"true\" } else { \"false\" }),")
same("fmt-bool-fmt", Q, "            Value::Boolean(true) => f.write(\"true\"),\n            Value::Boolean(false) => f.write(\"false\"),", "            Value::Boolean(b) => f.write(&b.to_string()),")
same("fmt-indent-repeat", F, "        for _ in 0..self.indent {\n            self.buf.push(' ');\n        }", "        self.buf.push_str(&\" \".repeat(self.indent));")
same("fmt-indent-extend", F, "        for _ in 0..self.indent {\n            self.buf.push(' ');\n        }", "        self.buf.extend(std::iter::repeat(' ').take(self.indent));")
same("fmt-indent-while", F, "        for _ in 0..self.indent {\n            self.buf.push(' ');\n        }", "        let mut n = self.indent;\n        while n > 0 {\n            self.buf.push(' ');\n            n -= 1;\n        }")
same("fmt-indent-width", F, "        for _ in 0..self.indent {\n            self.buf.push(' ');\n        }", "        self.buf.push_str(&format!(\"{:width$}\", \"\", width = self.indent));")
same("fmt-depth", (F, "        for _ in 0..self.indent {\n            self.buf.push(' ');\n        }", "        for _ in 0..self.indent {\n            for _ in 0..self.style.indent {\n                self.buf.push(' ');\n            }\n        }"),
  (F, "        self.indent += self.style.indent as usize;\n    }", "        self.indent += 1;\n    }"), (F, "            .checked_sub(self.style.indent as usize)", "            .checked_sub(1)"),
  (F, "            self.indent += self.style.indent as usize;\n            for", "            self.indent += 1;\n            for"), (F, "            self.indent -= self.style.indent as usize;\n", "            self.indent -= 1;\n"))
same("fmt-dec-sub", F, "        self.indent = self\n            .indent\n            .checked_sub(self.style.indent as usize)\n            .expect(\"negative indent\");", "        self.indent -= self.style.indent as usize;")
same("fmt-endline-writeln", F, "    pub fn endline(&mut self) {\n        self.buf.push('\\n');", "    pub fn endline(&mut self) {\n        self.write(\"\\n\");")
same("fmt-margin-if", F, "        if !self.buf.is_empty() {\n            self.buf.push('\\n');\n        }", "        if self.buf.is_empty() {\n            return;\n        }\n        self.endline();")
same("fmt-inline-type", Q, "        self.var_type.display(f);", "        let ty = &self.var_type;\n        ty.display(f);")
same("fmt-field-else", Q, "        if !self.selection_set.items.is_empty() {\n            f.write(\" \");\n            f.start_block();\n            for item in &self.selection_set.items {\n                item.display(f);\n            }\n            f.end_block();\n        } else {\n            f.endline();\n        }", "        if self.selection_set.items.is_empty() {\n            f.endline();\n            return;\n        }\n        f.write(\" \");\n        f.start_block();\n        for item in self.selection_set.items.iter() {\n            item.display(f);\n        }\n        f.end_block();")
same("fmt-arg-helper", (Q, "        f.write(arguments[0].0.as_ref());\n        f.write(\": \");\n        arguments[0].1.display(f);\n", "        argument(&arguments[0].0, &arguments[0].1, f);\n"), (Q, "            f.write(arg.0.as_ref());\n            f.write(\": \");\n            arg.1.display(f);\n", "            argument(&arg.0, &arg.1, f);\n"), (Q, "                    f.write(name.as_ref());\n                    f.write(\": \");\n                    value.display(f);\n", "                    argument(name, value, f);\n"),
  (Q, "fn format_arguments<", "fn argument<'a, T: Text<'a>>(name: &T::Value, value: &Value<'a, T>, f: &mut Formatter) {\n    f.write(name.as_ref());\n    f.write(\": \");\n    value.display(f);\n}\n\nfn format_arguments<"))
same("fmt-arg-loop", Q, "        f.start_argument();\n        f.write(arguments[0].0.as_ref());\n        f.write(\": \");\n        arguments[0].1.display(f);\n        for arg in &arguments[1..] {\n            f.deliniate_argument();\n            f.start_argument();\n            f.write(arg.0.as_ref());\n            f.write(\": \");\n            arg.1.display(f);\n        }", "        for (i, (name, value)) in arguments.iter().enumerate() {\n            if i > 0 {\n                f.deliniate_argument();\n            }\n            f.start_argument();\n            f.write(name.as_ref());\n            f.write(\": \");\n            value.display(f);\n        }")
same("fmt-list-helper", (Q, "                f.start_argument_block('[');\n                if !items.is_empty() {\n                    f.start_argument();\n                    items[0].display(f);\n                    for item in &items[1..] {\n                        f.deliniate_argument();\n                        f.start_argument();\n                        item.display(f);\n                    }\n                }\n                f.end_argument_block(']');", "                f.start_argument_block('[');\n                separated(items, f, |item, f| item.display(f));\n                f.end_argument_block(']');"),
  (Q, "                let mut first = true;\n                for (name, value) in items.iter() {\n                    if first {\n                        first = false;\n                    } else {\n                        f.deliniate_argument();\n                    }\n                    f.start_argument();\n                    f.write(name.as_ref());\n                    f.write(\": \");\n                    value.display(f);\n                }", "                separated(items, f, |(name, value), f| {\n                    f.write(name.as_ref());\n                    f.write(\": \");\n                    value.display(f);\n                });"),
  (Q, "fn format_arguments<", "fn separated<I: IntoIterator>(items: I, f: &mut Formatter, mut one: impl FnMut(I::Item, &mut Formatter)) {\n    let mut first = true;\n    for item in items {\n        if !first {\n            f.deliniate_argument();\n        }\n        first = false;\n        f.start_argument();\n        one(item, f);\n    }\n}\n\nfn format_arguments<"))
same("fmt-schema-ops", S, "        if let Some(ref q) = self.query {\n            f.indent();\n            f.write(\"query: \");\n            f.write(q.as_ref());\n            f.endline();\n        }\n        if let Some(ref m) = self.mutation {\n            f.indent();\n            f.write(\"mutation: \");\n            f.write(m.as_ref());\n            f.endline();\n        }\n        if let Some(ref s) = self.subscription {\n            f.indent();\n            f.write(\"subscription: \");\n            f.write(s.as_ref());\n            f.endline();\n        }\n", "        let ops = [\n            (\"query\", &self.query),\n            (\"mutation\", &self.mutation),\n            (\"subscription\", &self.subscription),\n        ];\n        for (kind, name) in ops.iter() {\n            if let Some(ref name) = **name {\n                f.indent();\n                f.write(kind);\n                f.write(\": \");\n                f.write(name.as_ref());\n                f.endline();\n            }\n        }\n")
same("fmt-descr-generic", (S, "fn description(description: &Option<String>, f: &mut Formatter) {\n    if let Some(ref descr) = *description {", "fn description(description: &Option<String>, f: &mut Formatter) {\n    if let Some(descr) = description.as_deref() {"), (S, "        f.write_quoted(descr.as_ref());\n        f.endline();", "        f.write_quoted(descr);\n        f.endline();"))
same("fmt-enum-values", (S, "            for val in &self.values {\n                f.indent();\n                if let Some(ref descr) = val.description {\n                    f.write_quoted(descr.as_ref());\n                    f.write(\" \");\n                }\n                f.write(val.name.as_ref());\n                format_directives(&val.directives, f);\n                f.endline();\n            }", "            for val in &self.values {\n                val.display(f);\n            }"), (S, "            for val in &self.values {\n                f.indent();\n                if let Some(ref descr) = val.description {\n                    f.write_quoted(descr.as_ref());\n                    f.write(\" \");\n                }\n                f.write(val.name.as_ref());\n                format_directives(&val.directives, f);\n                f.endline();\n            }", "            for val in &self.values {\n                val.display(f);\n            }"),
  (S, "fn format_inputs<", "impl<'a, T> Displayable for EnumValue<'a, T>\nwhere\n    T: Text<'a>,\n{\n    fn display(&self, f: &mut Formatter) {\n        f.indent();\n        if let Some(ref descr) = self.description {\n            f.write_quoted(descr.as_ref());\n            f.write(\" \");\n        }\n        f.write(self.name.as_ref());\n        format_directives(&self.directives, f);\n        f.endline();\n    }\n}\n\nfn format_inputs<"))
same("fmt-block-closure", (F, "    pub fn end_block(&mut self) {", "    pub fn block<I: IntoIterator>(&mut self, items: I, mut one: impl FnMut(I::Item, &mut Self)) {\n        self.start_block();\n        for item in items {\n            one(item, self);\n        }\n        self.end_block();\n    }\n\n    pub fn end_block(&mut self) {"), (S, "        f.start_block();\n        for fld in fields {\n            f.indent();\n            fld.display(f);\n            f.endline();\n        }\n        f.end_block();", "        f.block(fields, |fld, f| {\n            f.indent();\n            fld.display(f);\n            f.endline();\n        });"))
same("fmt-write-macro", (Q, "        f.write(\"fragment \");\n        f.write(self.name.as_ref());\n        f.write(\" \");\n", "        use std::fmt::Write;\n        write!(f, \"fragment {} \", self.name.as_ref()).unwrap();\n"), (F, "pub(crate) fn format_directives", "impl<'a> std::fmt::Write for Formatter<'a> {\n    fn write_str(&mut self, s: &str) -> std::fmt::Result {\n        self.write(s);\n        Ok(())\n    }\n}\n\npub(crate) fn format_directives"))
same("fmt-style-copy", (F, "        if self.style.multiline_arguments {\n            self.endline();\n            self.dec_indent();\n            self.indent();\n        }\n        self.buf.push(close_char);", "        let multiline = self.style.multiline_arguments;\n        if multiline {\n            self.endline();\n            self.dec_indent();\n            self.indent();\n        }\n        self.buf.push(close_char);"))
same("fmt-selection-match", Q, "            Selection::Field(ref fld) => fld.display(f),\n            Selection::InlineFragment(ref frag) => frag.display(f),\n            Selection::FragmentSpread(ref frag) => frag.display(f),", "            Selection::FragmentSpread(ref spread) => spread.display(f),\n            Selection::InlineFragment(ref inline) => inline.display(f),\n            Selection::Field(ref field) => field.display(f),")
same("fmt-type-deref", Q, "            Type::NonNullType(ref typ) => {\n                typ.display(f);\n                f.write(\"!\");\n            }", "            Type::NonNullType(ref typ) => {\n                Displayable::display(&**typ, f);\n                f.write(\"!\");\n            }")
same("fmt-quoted-scan", (F, "        let mut has_newline = false;\n        let mut has_nonprintable = false;\n", "        let has_newline = s.contains('\\n');\n        let mut has_nonprintable = false;\n        let mut seen = false;\n"), (F, "if line_blank && !(has_newline && line_start) {", "if line_blank && !(seen && line_start) {"), (F, "                    has_newline = true;\n", "                    seen = true;\n"))
same("fmt-dirs-foreach", F, "    for dir in dirs {\n        f.write(\" \");\n        dir.display(f);\n    }", "    dirs.iter().for_each(|dir| {\n        f.write(\" \");\n        dir.display(f);\n    });")
same("fmt-display-writestr", F, "            impl<'a, T> fmt::Display for $typ<'a, T>\n                where T: Text<'a>,\n            {\n                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n                    f.write_str(&to_string(self))", "            impl<'a, T> fmt::Display for $typ<'a, T>\n                where T: Text<'a>,\n            {\n                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n                    write!(f, \"{}\", to_string(self))")
# ---- P13: panics of the printers
bug("P13", "p-dec-extra", Q, "            f.write(arg.0.as_ref());\n            f.write(\": \");\n            arg.1.display(f);\n        }\n        f.end_argument_block(')');", "            f.write(arg.0.as_ref());\n            f.write(\": \");\n            arg.1.display(f);\n        }\n        f.end_argument_block(')');\n        f.dec();",
    )if False else None
bug("P13", "p-args-first", Q, "    if !arguments.is_empty() {\n        f.start_argument_block('(');", "    if !arguments.is_empty() || f.is_multiline() {\n        f.start_argument_block('(');")if False else None
bug("P13", "p-list-first", Q, "                if !items.is_empty() {\n                    f.start_argument();\n                    items[0].display(f);", "                {\n                    f.start_argument();\n                    items[0].display(f);")
bug("P13", "p-list-second", Q, "                    for item in &items[1..] {\n                        f.deliniate_argument();", "                    let _ = &items[1];\n                    for item in &items[1..] {\n                        f.deliniate_argument();")
bug("P13,P21", "p-end-no-inc", F, "        self.buf.push(open_char);\n        if self.style.multiline_arguments {\n            self.inc_indent();\n        }", "        self.buf.push(open_char);\n        if self.style.multiline_arguments && open_char != '[' {\n            self.inc_indent();\n        }")
bug("P13", "p-u32", F, "            self.indent += self.style.indent as usize;\n", "            self.indent += (self.style.indent * 2) as usize / 2;\n")
bug("P13", "p-u32-inc", F, "    fn inc_indent(&mut self) {\n        self.indent += self.style.indent as usize;", "    fn inc_indent(&mut self) {\n        self.indent = (self.indent as u32 + self.style.indent) as usize;")
bug("P13", "p-unwrap-cond", Q, "        f.write(\"...\");\n        if let Some(ref cond) = self.type_condition {\n            f.write(\" \");\n            cond.display(f);\n        }", "        f.write(\"...\");\n        if self.directives.len() < 3 || self.type_condition.is_some() {\n        if let Some(ref cond) = self.type_condition {\n            f.write(\" \");\n            cond.display(f);\n        }\n        } else { f.write(self.type_condition.as_ref().map(|_| \"\").unwrap()); }")
bug("P13", "p-union-idx", S, "        format_directives(&self.directives, f);\n        if !self.types.is_empty() {\n            f.write(\" = \");", "        format_directives(&self.directives, f);\n        if !self.types.is_empty() || !self.directives.is_empty() {\n            f.write(\" = \");")
bug("P13", "p-assert-width", F, "    pub fn end_block(&mut self) {\n        self.dec_indent();", "    pub fn end_block(&mut self) {\n        assert!(self.indent > 0);\n        self.dec_indent();")
bug("P13", "p-sub-one", F, "    pub fn end_block(&mut self) {\n        self.dec_indent();", "    pub fn end_block(&mut self) {\n        let _last = self.indent - 1;\n        self.dec_indent();")
bug("P13", "p-float-unwrap", Q, "Value::Float(val) if val.abs() < 1e16 =>", "Value::Float(val) if val.partial_cmp(&1e16).unwrap() == std::cmp::Ordering::Less && val.abs() < 1e16 =>") if False else None
bug("P13", "p-int-try", Q, "Value::Int(ref num) => f.write(&format!(\"{}\", num.0)),", "Value::Int(ref num) => { use std::convert::TryFrom; if i32::try_from(num.0).unwrap() >= 0 {} f.write(&format!(\"{}\", num.0)) }")
bug("P13", "p-int-abs", Q, "Value::Int(ref num) => f.write(&format!(\"{}\", num.0)),", "Value::Int(ref num) => { if num.0 < 0 { f.write(\"-\"); f.write(&format!(\"{}\", -num.0)) } else { f.write(&format!(\"{}\", num.0)) } }")
# ---- P21: layout
bug("P21", "l-spread-indent", Q, "        f.indent();\n        f.write(\"...\");\n        f.write(self.fragment_name.as_ref());", "        if !self.directives.is_empty() { f.write(\" \"); } else { f.indent(); }\n        f.write(\"...\");\n        f.write(self.fragment_name.as_ref());")
bug("P21", "l-margin-double", Q, op("mutation"), op("mutation").replace("        f.margin();\n", "        f.margin();\n        if !self.directives.is_empty() { f.margin(); }\n"))
bug("P21", "l-margin-dropped", Q, op("subscription"), op("subscription").replace("        f.margin();\n", "        if self.name.is_some() { f.margin(); }\n"))
bug("P21", "l-margin-dropped-frag", Q, "        f.margin();\n        f.indent();\n        f.write(\"fragment \");", "        f.indent();\n        f.write(\"fragment \");")
bug("P21", "l-margin-first", F, "        if !self.buf.is_empty() {\n            self.buf.push('\\n');\n        }", "        self.buf.push('\\n');")
bug("P21", "l-block-indent", F, "        self.buf.push('{');\n        self.endline();\n        self.inc_indent();", "        self.buf.push('{');\n        self.endline();\n        if self.indent < 8 { self.inc_indent(); }") if False else None
bug("P21", "l-close-late", F, "    pub fn end_block(&mut self) {\n        self.dec_indent();\n        self.indent();", "    pub fn end_block(&mut self) {\n        self.indent();\n        self.dec_indent();")
bug("P21", "l-close-args", F, "            self.endline();\n            self.dec_indent();\n            self.indent();\n        }\n        self.buf.push(close_char);", "            self.endline();\n            self.indent();\n            self.dec_indent();\n        }\n        self.buf.push(close_char);")
bug("P21", "l-close-args-none", F, "            self.endline();\n            self.dec_indent();\n            self.indent();\n        }\n        self.buf.push(close_char);", "            self.dec_indent();\n        }\n        self.buf.push(close_char);")
bug("P21", "l-fields-line", S, "        for fld in fields {\n            fld.display(f);\n        }", "        for fld in fields {\n            fld.display(f);\n            if fld.description.is_some() { f.endline(); }\n        }")
bug("P21", "l-enum-trail", S, "        f.write(\"enum \");\n        f.write(self.name.as_ref());\n        format_directives(&self.directives, f);\n        if !self.values.is_empty() {\n            f.write(\" \");\n            f.start_block();\n            for val in &self.values {\n                f.indent();\n", "        f.write(\"enum \");\n        f.write(self.name.as_ref());\n        format_directives(&self.directives, f);\n        if !self.values.is_empty() {\n            f.write(\" \");\n            f.start_block();\n            for val in &self.values {\n                if val.description.is_none() { f.indent(); }\n")
bug("P21", "l-inputs-indent", S, "        for fld in fields {\n            f.indent();\n            fld.display(f);\n            f.endline();", "        for fld in fields {\n            if fld.default_value.is_none() { f.indent(); } else { f.write(\" \"); }\n            fld.display(f);\n            f.endline();")
bug("P21", "l-schema-sub", S, "            f.indent();\n            f.write(\"subscription: \");", "            f.write(\" \");\n            f.write(\"subscription: \");")
bug("P21", "l-schema-mut-line", S, "            f.write(m.as_ref());\n            f.endline();", "            f.write(m.as_ref());\n            if self.subscription.is_some() { f.write(\" \"); } else { f.endline(); }")
bug("P21", "l-delim-item", Q, "                    for item in &items[1..] {\n                        f.deliniate_argument();\n                        f.start_argument();", "                    for item in &items[1..] {\n                        f.deliniate_argument();\n")
bug("P21", "l-obj-start", Q, "                    f.start_argument();\n                    f.write(name.as_ref());\n                    f.write(\": \");\n                    value.display(f);", "                    if items.len() < 2 { f.start_argument(); }\n                    f.write(name.as_ref());\n                    f.write(\": \");\n                    value.display(f);")
bug("P21", "l-descr-endline", S, "        f.write_quoted(descr.as_ref());\n        f.endline();", "        f.write_quoted(descr.as_ref());\n        f.endline();\n        f.endline();")
bug("P21", "l-union-endline", S, "        f.write(\"extend union \");\n        f.write(self.name.as_ref());\n        format_directives(&self.directives, f);\n        if !self.types.is_empty() {\n            f.write(\" = \");", "        f.write(\"extend union \");\n        f.write(self.name.as_ref());\n        format_directives(&self.directives, f);\n        if self.types.len() > 1 { f.endline(); }\n        if !self.types.is_empty() {\n            f.write(\" = \");")
bug("P21", "l-field-end", Q, "            f.end_block();\n        } else {\n            f.endline();\n        }\n    }\n}\n\nimpl<'a, T: Text<'a>> Displayable for Query<", "            f.end_block();\n            if self.alias.is_some() { f.endline(); }\n        } else {\n            f.endline();\n        }\n    }\n}\n\nimpl<'a, T: Text<'a>> Displayable for Query<")
bug("P21", "l-two-per-line", Q, "        format_directives(&self.directives, f);\n        if !self.selection_set.items.is_empty() {\n            f.write(\" \");", "        format_directives(&self.directives, f);\n        if self.selection_set.items.is_empty() && self.arguments.len() > 1 { f.write(\" \"); return; }\n        if !self.selection_set.items.is_empty() {\n            f.write(\" \");")
bug("P21", "l-dec-once", F, "    pub fn start_argument(&mut self) {\n        if self.style.multiline_arguments {\n            self.endline();\n            self.indent();", "    pub fn start_argument(&mut self) {\n        if self.style.multiline_arguments {\n            self.endline();\n            self.indent();\n            self.buf.push(' ');")
bug("P21", "l-indent-half", F, "        for _ in 0..self.indent {", "        for _ in self.indent / 2..self.indent {")
bug("P21", "l-indent-tab", F, "            self.buf.push(' ');\n        }\n    }\n\n    pub fn endline", "            self.buf.push('\\t');\n        }\n    }\n\n    pub fn endline")
bug("P21", "l-indent-first", Q, "        f.margin();\n        f.indent();\n        f.write(\"fragment \");", "        f.margin();\n        f.write(\" \");\n        f.indent();\n        f.write(\"fragment \");")
