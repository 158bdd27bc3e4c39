Q = "query/grammar.rs"; SC = "schema/grammar.rs"; CM = "common.rs"; H = "helpers.rs"
bug("P01", "alias-swap", Q, "Some(name) => (name, Some(name_or_alias))", "Some(name) => (name_or_alias, Some(name))")
bug("P01", "drop-directives-spread", Q, "FragmentSpread {\n                        position,\n                        fragment_name,\n                        directives,", "FragmentSpread {\n                        position,\n                        fragment_name,\n                        directives: if directives.len() > 4 { Vec::new() } else { directives },")
bug("P01", "many-selection", Q, "many1(parser(selection))", "combine::many(parser(selection))")
bug("P01", "vars-many", Q, ".with(many1(\n                        (", ".with(combine::many(\n                        (")
bug("P01", "args-many", CM, "many1(name::<'a, T>().skip(punct(\":\")).and(parser(value)))", "many(name::<'a, T>().skip(punct(\":\")).and(parser(value)))")
bug("P01,P02", "default-var", CM, ".with(many(parser(default_value)))", ".with(many(parser(value)))")
bug("P01", "no-eof", Q, ".skip(eof())", "")
bug("P02", "no-eof-schema", SC, ".skip(eof())", "")
bug("P01,P02", "nonnull-drop", CM, "if strict {\n                Type::NonNullType", "if strict && !matches!(typ, Type::ListType(_)) {\n                Type::NonNullType")
bug("P01,P02", "true-false", CM, "ident(\"false\").map(|_| Value::Boolean(false))", "ident(\"false\").map(|_| Value::Boolean(true))")
bug("P01,P02", "null-enum", CM, ".or(ident(\"null\").map(|_| Value::Null))", "")
bug("P02", "dup-op", SC, "\"mutation\" if mutation.is_some() =>", "\"mutation\" if query.is_some() && mutation.is_some() =>")
bug("P02", "lead-amp", SC, ".skip(optional(punct(\"&\")))\n            .with(sep_by1(name::<'a, X>(), punct(\"&\")))", ".with(sep_by1(name::<'a, X>(), punct(\"&\")))")
bug("P02", "ext-or", SC, "interfaces.is_empty() && directives.is_empty() && fields.is_empty()", "interfaces.is_empty() && (directives.is_empty() || fields.is_empty())")
bug("P02", "desc-drop", SC, "optional(parser(string)),\n        name::<'a, S>(),\n        parser(arguments_definition),", "optional(parser(string)).map(|d| d.filter(|d| !d.is_empty())),\n        name::<'a, S>(),\n        parser(arguments_definition),")
bug("P01", "mutation-query", Q, ".or(parser(mutation).map(OperationDefinition::Mutation))", ".or(parser(mutation).map(|m| OperationDefinition::Query(Query { position: m.position, name: m.name, variable_definitions: m.variable_definitions, directives: m.directives, selection_set: m.selection_set })))")
bug("P01", "rev-items", Q, "SelectionSet {\n            span: (start, end),\n            items,", "SelectionSet {\n            span: (start, end),\n            items: { let mut i: Vec<Selection<S>> = items; i.reverse(); i },")
bug("P14", "span-swap", Q, "span: (start, end),\n            items,", "span: (end, start),\n            items,")
bug("P14", "pos-late", Q, "position().skip(ident(\"fragment\")),\n        name::<'a, T>(),", "ident(\"fragment\").with(position()),\n        name::<'a, T>(),")
bug("P01", "kind-ignored", H, "c.kind == self.kind && c.value == self.value", "c.value == self.value")
bug("P01,P02", "name-any", H, "satisfy(|c: Token<'a>| c.kind == Kind::Name)\n", "satisfy(|c: Token<'a>| c.kind == Kind::Name && c.value != \"__x\")\n")
bug("P01", "frag-spread-on", Q, "optional(ident(\"on\").with(name::<'a, S>()).map(TypeCondition::On))", "optional(ident(\"on\").with(optional(name::<'a, S>()))).map(|x| x.flatten().map(TypeCondition::On))")
# ---- behaviour preserving
same("unwrap-or-else", Q, ".map(|vars| vars.unwrap_or_default())", ".map(|vars| match vars { Some(v) => v, None => Vec::new() })")
same("helper-parens", (CM, "pub fn directives<'a, T>(", "fn one_argument<'a, T>(input: &mut TokenStream<'a>) -> StdParseResult<(T::Value, Value<'a, T>), TokenStream<'a>>\nwhere T: Text<'a> {\n    name::<'a, T>().skip(punct(\":\")).and(parser(value)).parse_stream(input).into_result()\n}\n\npub fn directives<'a, T>("),
     (CM, "many1(name::<'a, T>().skip(punct(\":\")).and(parser(value)))", "many1(parser(one_argument::<'a, T>))"))
same("choice-value", CM, "parser(plain_value)\n        .or(punct(\"$\").with(name::<'a, T>()).map(Value::Variable))\n        .or(punct(\"[\")\n            .with(many(parser(value)))\n            .skip(punct(\"]\"))\n            .map(Value::List))\n        .or(punct(\"{\")\n            .with(many(name::<'a, T>().skip(punct(\":\")).and(parser(value))))\n            .skip(punct(\"}\"))\n            .map(Value::Object))",
     "choice((punct(\"$\").with(name::<'a, T>()).map(Value::Variable),\n        punct(\"[\")\n            .with(many(parser(value)))\n            .skip(punct(\"]\"))\n            .map(Value::List),\n        punct(\"{\")\n            .with(many(name::<'a, T>().skip(punct(\":\")).and(parser(value))))\n            .skip(punct(\"}\"))\n            .map(Value::Object), parser(plain_value)))")
same("between", Q, "use combine::{eof, many1, optional, position, StdParseResult};", "use combine::{between, eof, many1, optional, position, StdParseResult};")
same("between2", (CM, "punct(\"(\")\n            .with(many1(name::<'a, T>().skip(punct(\":\")).and(parser(value))))\n            .skip(punct(\")\"))", "combine::between(punct(\"(\"), punct(\")\"), many1(name::<'a, T>().skip(punct(\":\")).and(parser(value))))"))
same("query-helper", (Q, "        .map(\n            |(position, (name, variable_definitions, directives, selection_set))| Query {\n                position,\n                name,\n                selection_set,\n                variable_definitions,\n                directives,\n            },\n        )", "        .map(|(position, c)| make_query(position, c))"),
     (Q, "pub fn mutation<'a, T: Text<'a>>(", "fn make_query<'a, T: Text<'a>>(position: crate::position::Pos, common: OperationCommon<'a, T>) -> Query<'a, T> {\n    let (name, variable_definitions, directives, selection_set) = common;\n    Query { position, name, variable_definitions, directives, selection_set }\n}\n\npub fn mutation<'a, T: Text<'a>>("))
same("dup-helper", SC, "                    match oper.value {\n                        \"query\" if query.is_some() => {\n                            err.add_error(Error::unexpected_static_message(\n                                \"duplicate `query` operation\",\n                            ));\n                        }\n                        \"query\" => {\n                            query = Some(type_name);\n                        }",
     "                    match oper.value {\n                        \"query\" => {\n                            if query.is_some() { err.add_error(Error::unexpected_static_message(\"duplicate `query` operation\")); } else { query = Some(type_name); }\n                        }")
same("type-match", CM, "        .and(optional(punct(\"!\")).map(|v| v.is_some()))\n        .map(|(typ, strict)| {\n            if strict {\n                Type::NonNullType(Box::new(typ))\n            } else {\n                typ\n            }\n        })", "        .and(optional(punct(\"!\")))\n        .map(|(typ, bang)| match bang { Some(_) => Type::NonNullType(Box::new(typ)), None => typ })")
same("ext-helper", (SC, "            if interfaces.is_empty() && directives.is_empty() && fields.is_empty() {", "            if nothing(&interfaces, &directives, &fields) {"), (SC, "pub fn scalar_type<'a, T>(", "fn nothing<A, B, C>(a: &[A], b: &[B], c: &[C]) -> bool {\n    a.len() + b.len() + c.len() == 0\n}\n\npub fn scalar_type<'a, T>("))
same("alias-iflet", Q, "                let (name, alias) = match opt_name {\n                    Some(name) => (name, Some(name_or_alias)),\n                    None => (name_or_alias, None),\n                };", "                let name; let alias;\n                if let Some(n) = opt_name { name = n; alias = Some(name_or_alias); } else { name = name_or_alias; alias = None; }")
same("frag-first", Q, "    parser(operation_definition)\n        .map(Definition::Operation)\n        .or(parser(fragment_definition).map(Definition::Fragment))", "    parser(fragment_definition).map(Definition::Fragment).or(parser(operation_definition).map(Definition::Operation))")
same("entry-split", Q, "    let mut tokens = TokenStream::new(s);\n    let (doc, _) = many1(parser(definition))\n        .map(|d| Document { definitions: d })\n        .skip(eof())\n        .parse_stream(&mut tokens)\n        .into_result()\n        .map_err(|e| e.into_inner().error)?;\n\n    Ok(doc)",
     "    let mut tokens = TokenStream::new(s);\n    match many1(parser(definition)).skip(eof()).parse_stream(&mut tokens).into_result() {\n        Ok((definitions, _)) => Ok(Document { definitions }),\n        Err(e) => Err(ParseError::from(e.into_inner().error)),\n    }")
same("span-tuple", Q, "        (\n        position().skip(punct(\"{\")),\n        many1(parser(selection)),\n        position().skip(punct(\"}\")),\n    )\n        .map(|(start, items, end)| SelectionSet {"[8:], "position().skip(punct(\"{\")).and(many1(parser(selection))).and(position().skip(punct(\"}\")))\n        .map(|((start, items), end)| SelectionSet {")
same("float-if", CM, "        .and_then(|tok| match tok.value.parse::<f64>() {\n            Ok(val) if val.is_finite() => Ok(val),\n            Ok(_) => Err(Error::Unexpected(Info::Static(\"float out of range\"))),\n            Err(e) => Err(Error::from(e)),\n        })", "        .and_then(|tok| {\n            let val: f64 = tok.value.parse().map_err(Error::from)?;\n            if val.is_infinite() || val.is_nan() {\n                return Err(Error::Unexpected(Info::Static(\"float out of range\")));\n            }\n            Ok(val)\n        })")
