# refactorings of the parsers as a maintainer might make them; none may raise an alarm
Q = "query/grammar.rs"; S = "schema/grammar.rs"; C = "common.rs"; H = "helpers.rs"; A = "schema/ast.rs"
SEL = "                    selection_set: sel.unwrap_or_else(|| SelectionSet {\n                        span: (position, position),\n                        items: Vec::new(),\n                    }),\n"
same("rf-sel-match", Q, SEL, "                    selection_set: match sel {\n                        Some(set) => set,\n                        None => SelectionSet {\n                            span: (position, position),\n                            items: vec![],\n                        },\n                    },\n")
same("rf-sel-or", Q, SEL, SEL.replace("unwrap_or_else(|| SelectionSet {", "unwrap_or(SelectionSet {"))
same("rf-sel-helper", (Q, SEL, "                    selection_set: sel.unwrap_or_else(|| no_selections(position)),\n"), (Q, "pub fn field<", "fn no_selections<'a, S: Text<'a>>(at: crate::position::Pos) -> SelectionSet<'a, S> {\n    SelectionSet { span: (at, at), items: Vec::new() }\n}\n\npub fn field<"))
NA = "                let (name, alias) = match opt_name {\n                    Some(name) => (name, Some(name_or_alias)),\n                    None => (name_or_alias, None),\n                };\n"
same("rf-alias-take", Q, NA, "                let mut name = name_or_alias;\n                let mut alias = None;\n                if let Some(actual) = opt_name {\n                    alias = Some(std::mem::replace(&mut name, actual));\n                }\n")
same("rf-alias-clone", Q, NA, "                let alias = opt_name.as_ref().map(|_| name_or_alias.clone());\n                let name = opt_name.unwrap_or(name_or_alias);\n")
same("rf-alias-fn", (Q, NA, "                let (name, alias) = split_alias::<S>(name_or_alias, opt_name);\n"), (Q, "pub fn field<", "fn split_alias<'a, S: Text<'a>>(first: S::Value, second: Option<S::Value>) -> (S::Value, Option<S::Value>) {\n    match second {\n        Some(name) => (name, Some(first)),\n        None => (first, None),\n    }\n}\n\npub fn field<"))
INL = "            (\n                position(),\n                optional(ident(\"on\").with(name::<'a, S>()).map(TypeCondition::On)),\n                parser(directives),\n                parser(selection_set),\n            )\n                .map(\n                    |(position, type_condition, directives, selection_set)| InlineFragment {\n                        position,\n                        type_condition,\n                        selection_set,\n                        directives,\n                    },\n                )\n                .map(Selection::InlineFragment)\n"
SPR = "(position(), name::<'a, S>(), parser(directives))\n                    .map(|(position, fragment_name, directives)| FragmentSpread {\n                        position,\n                        fragment_name,\n                        directives,\n                    })\n                    .map(Selection::FragmentSpread)"
same("rf-sel-fns", (Q, INL, "            parser(inline_fragment).map(Selection::InlineFragment)\n"), (Q, SPR, "parser(fragment_spread).map(Selection::FragmentSpread)"),
     (Q, "pub fn selection<", "fn inline_fragment<'a, S: Text<'a>>(\n    input: &mut TokenStream<'a>,\n) -> StdParseResult<InlineFragment<'a, S>, TokenStream<'a>> {\n    (\n        position(),\n        optional(parser(type_condition)),\n        parser(directives),\n        parser(selection_set),\n    )\n        .map(\n            |(position, type_condition, directives, selection_set)| InlineFragment {\n                position,\n                type_condition,\n                selection_set,\n                directives,\n            },\n        )\n        .parse_stream(input)\n        .into_result()\n}\n\nfn type_condition<'a, S: Text<'a>>(\n    input: &mut TokenStream<'a>,\n) -> StdParseResult<TypeCondition<'a, S>, TokenStream<'a>> {\n    ident(\"on\")\n        .with(name::<'a, S>())\n        .map(TypeCondition::On)\n        .parse_stream(input)\n        .into_result()\n}\n\nfn fragment_spread<'a, S: Text<'a>>(\n    input: &mut TokenStream<'a>,\n) -> StdParseResult<FragmentSpread<'a, S>, TokenStream<'a>> {\n    (position(), name::<'a, S>(), parser(directives))\n        .map(|(position, fragment_name, directives)| FragmentSpread {\n            position,\n            fragment_name,\n            directives,\n        })\n        .parse_stream(input)\n        .into_result()\n}\n\npub fn selection<"))
same("rf-sel-onemap", Q, SPR, "(position(), name::<'a, S>(), parser(directives)).map(\n                    |(position, fragment_name, directives)| {\n                        Selection::FragmentSpread(FragmentSpread {\n                            position,\n                            fragment_name,\n                            directives,\n                        })\n                    },\n                )")
same("rf-sel-choice", (Q, "    parser(field)\n        .map(Selection::Field)\n        .or(punct(\"...\").with(\n", "    combine::choice((\n        parser(field).map(Selection::Field),\n        punct(\"...\").with(\n"), (Q, "                    .map(Selection::FragmentSpread)),\n        ))\n", "                    .map(Selection::FragmentSpread)),\n        ),\n    ))\n"))
same("rf-sel-order", (Q, "    parser(field)\n        .map(Selection::Field)\n        .or(punct(\"...\").with(\n", "    punct(\"...\").with(\n"), (Q, "                    .map(Selection::FragmentSpread)),\n        ))\n", "                    .map(Selection::FragmentSpread)),\n        )\n        .or(parser(field).map(Selection::Field))\n"))
OPC = "    optional(name::<'a, T>())\n        .and(\n            optional(\n"
same("rf-op-tuple", (Q, "    optional(name::<'a, T>())\n        .and(\n            optional(\n                punct(\"(\")", "    (\n        optional(name::<'a, T>()),\n            optional(\n                punct(\"(\")"), (Q, "            .map(|vars| vars.unwrap_or_default()),\n        )\n        .and(parser(directives))\n        .and(parser(selection_set))\n        .map(|(((a, b), c), d)| (a, b, c, d))\n", "            .map(|vars| vars.unwrap_or_default()),\n        parser(directives),\n        parser(selection_set),\n    )\n"))
same("rf-op-vars", Q, ".map(|vars| vars.unwrap_or_default()),", ".map(|vars| match vars {\n                Some(vars) => vars,\n                None => Vec::new(),\n            }),")
same("rf-op-vars2", Q, ".map(|vars| vars.unwrap_or_default()),", ".map(Option::unwrap_or_default),")
same("rf-op-vars3", Q, ".map(|vars| vars.unwrap_or_default()),", ".map(|vars: Option<Vec<_>>| vars.into_iter().flatten().collect()),")
VD = "                        (\n                            position(),\n                            punct(\"$\").with(name::<'a, T>()).skip(punct(\":\")),\n                            parser(parse_type),\n                            optional(punct(\"=\").with(parser(default_value))),\n                        )\n                            .map(\n                                |(position, name, var_type, default_value)| VariableDefinition {\n                                    position,\n                                    name,\n                                    var_type,\n                                    default_value,\n                                },\n                            ),\n"
same("rf-vardef-fn", (Q, VD, "                        parser(variable_definition)\n"), (Q, "pub fn operation_common<", "fn variable_definition<'a, T: Text<'a>>(\n    input: &mut TokenStream<'a>,\n) -> StdParseResult<VariableDefinition<'a, T>, TokenStream<'a>> {\n    (\n        position().skip(punct(\"$\")),\n        name::<'a, T>(),\n        punct(\":\").with(parser(parse_type)),\n        optional(punct(\"=\").with(parser(default_value))),\n    )\n        .map(|(position, name, var_type, default_value)| VariableDefinition {\n            position,\n            name,\n            var_type,\n            default_value,\n        })\n        .parse_stream(input)\n        .into_result()\n}\n\npub fn operation_common<"))
same("rf-set-and", Q, "    (\n        position().skip(punct(\"{\")),\n        many1(parser(selection)),\n        position().skip(punct(\"}\")),\n    )\n        .map(|(start, items, end)| SelectionSet {", "    position()\n        .skip(punct(\"{\"))\n        .and(many1(parser(selection)))\n        .and(position())\n        .skip(punct(\"}\"))\n        .map(|((start, items), end)| SelectionSet {")
PQ = "    let mut tokens = TokenStream::new(s);\n    let (doc, _) = many1(parser(definition))\n        .map(|d| Document { definitions: d })\n        .skip(eof())\n        .parse_stream(&mut tokens)\n        .into_result()\n        .map_err(|e| e.into_inner().error)?;\n\n    Ok(doc)\n"
for f, n in ((Q, "q"), (S, "s")):
    same("rf-entry-match-" + n, f, PQ, "    let mut tokens = TokenStream::new(s);\n    let result = many1(parser(definition))\n        .skip(eof())\n        .parse_stream(&mut tokens)\n        .into_result();\n    match result {\n        Ok((definitions, _)) => Ok(Document { definitions }),\n        Err(e) => Err(ParseError::from(e.into_inner().error)),\n    }\n")
    same("rf-entry-parse-" + n, f, PQ, "    let (doc, _rest) = many1(parser(definition))\n        .skip(eof())\n        .map(|definitions| Document { definitions })\n        .parse(TokenStream::new(s))?;\n    Ok(doc)\n")
    same("rf-entry-map-" + n, f, PQ, PQ.replace("    let (doc, _) = many1", "    many1").replace(".map_err(|e| e.into_inner().error)?;\n\n    Ok(doc)\n", ".map(|(doc, _)| doc)\n        .map_err(|e| e.into_inner().error.into())\n"))
    T = "'a, " + ("S" if f == Q else "T")
    same("rf-entry-doc-" + n, (f, PQ, "    let mut tokens = TokenStream::new(s);\n    document(&mut tokens)\n        .map(|(doc, _)| doc)\n        .map_err(|e| ParseError::from(e.into_inner().error))\n"), (f, "/// Parses a piece of ", "fn document<'a, X: Text<'a>>(\n    input: &mut TokenStream<'a>,\n) -> StdParseResult<Document<'a, X>, TokenStream<'a>> {\n    many1(parser(definition))\n        .skip(eof())\n        .map(|definitions| Document { definitions })\n        .parse_stream(input)\n        .into_result()\n}\n\n/// Parses a piece of "))
CD = "    let tokens = TokenStream::new(s);\n    let (doc, tokens) = parser(definition).parse(tokens)?;\n\n    Ok((doc, &s[tokens.offset()..]))\n"
same("rf-cons-split", Q, CD, "    let (def, stream) = parser(definition).parse(TokenStream::new(s))?;\n    let (_, rest) = s.split_at(stream.offset());\n    Ok((def, rest))\n")
same("rf-cons-match", Q, CD, "    match parser(definition).parse(TokenStream::new(s)) {\n        Ok((doc, tokens)) => {\n            let consumed = tokens.offset();\n            Ok((doc, &s[consumed..]))\n        }\n        Err(e) => Err(e.into()),\n    }\n")
same("rf-cons-map", Q, CD, "    parser(definition)\n        .parse(TokenStream::new(s))\n        .map(|(doc, tokens)| (doc, &s[tokens.offset()..]))\n        .map_err(ParseError::from)\n")
same("rf-cons-stream", Q, CD, "    let mut tokens = TokenStream::new(s);\n    let (doc, _) = parser(definition)\n        .parse_stream(&mut tokens)\n        .into_result()\n        .map_err(|e| e.into_inner().error)?;\n    Ok((doc, &s[tokens.offset()..]))\n")
OPD = "    parser(selection_set)\n        .map(OperationDefinition::SelectionSet)\n        .or(parser(query).map(OperationDefinition::Query))\n        .or(parser(mutation).map(OperationDefinition::Mutation))\n        .or(parser(subscription).map(OperationDefinition::Subscription))\n"
same("rf-opdef-choice", Q, OPD, "    combine::choice((\n        parser(query).map(OperationDefinition::Query),\n        parser(mutation).map(OperationDefinition::Mutation),\n        parser(subscription).map(OperationDefinition::Subscription),\n        parser(selection_set).map(OperationDefinition::SelectionSet),\n    ))\n")
same("rf-def-flat", Q, "    parser(operation_definition)\n        .map(Definition::Operation)\n        .or(parser(fragment_definition).map(Definition::Fragment))\n", "    parser(fragment_definition)\n        .map(Definition::Fragment)\n        .or(parser(operation_definition).map(Definition::Operation))\n")
same("rf-query-tuple", Q, "    position()\n        .skip(ident(\"query\"))\n        .and(parser(operation_common))\n        .map(\n            |(position, (name, variable_definitions, directives, selection_set))| Query {", "    (position(), ident(\"query\"), parser(operation_common))\n        .map(\n            |(position, _keyword, (name, variable_definitions, directives, selection_set))| Query {")
same("rf-query-from", Q, "            |(position, (name, variable_definitions, directives, selection_set))| Mutation {\n                position,\n                name,\n                selection_set,\n                variable_definitions,\n                directives,\n            },\n", "            |(position, common)| {\n                let (name, variable_definitions, directives, selection_set) = common;\n                Mutation {\n                    position,\n                    name,\n                    variable_definitions,\n                    directives,\n                    selection_set,\n                }\n            },\n")
# ---- common
VL = "        .or(punct(\"[\")\n            .with(many(parser(value)))\n            .skip(punct(\"]\"))\n            .map(Value::List))\n        .or(punct(\"{\")\n            .with(many(name::<'a, T>().skip(punct(\":\")).and(parser(value))))\n            .skip(punct(\"}\"))\n            .map(Value::Object))\n"
same("rf-val-collect", C, VL, VL.replace(".map(Value::Object))", ".map(|fields: Vec<(T::Value, Value<'a, T>)>| Value::Object(fields.into_iter().collect())))"))
same("rf-val-insert", C, VL, VL.replace(".map(Value::Object))", ".map(|fields: Vec<(T::Value, Value<'a, T>)>| {\n                let mut map = BTreeMap::new();\n                for (key, val) in fields {\n                    map.insert(key, val);\n                }\n                Value::Object(map)\n            }))"))
same("rf-val-closure", C, VL, VL.replace(".map(Value::List))", ".map(|items: Vec<Value<'a, T>>| Value::List(items)))"))
same("rf-val-tuple", C, VL, VL.replace("many(name::<'a, T>().skip(punct(\":\")).and(parser(value)))", "many((name::<'a, T>(), punct(\":\").with(parser(value))))"))
same("rf-val-fns", (C, VL, "        .or(parser(list_value))\n        .or(parser(object_value))\n"), (C, "pub fn value<", "fn list_value<'a, T: Text<'a>>(input: &mut TokenStream<'a>) -> StdParseResult<Value<'a, T>, TokenStream<'a>> {\n    punct(\"[\")\n        .with(many(parser(value)))\n        .skip(punct(\"]\"))\n        .map(Value::List)\n        .parse_stream(input)\n        .into_result()\n}\n\nfn object_value<'a, T: Text<'a>>(input: &mut TokenStream<'a>) -> StdParseResult<Value<'a, T>, TokenStream<'a>> {\n    punct(\"{\")\n        .with(many(parser(object_field)))\n        .skip(punct(\"}\"))\n        .map(Value::Object)\n        .parse_stream(input)\n        .into_result()\n}\n\nfn object_field<'a, T: Text<'a>>(input: &mut TokenStream<'a>) -> StdParseResult<(T::Value, Value<'a, T>), TokenStream<'a>> {\n    name::<'a, T>()\n        .skip(punct(\":\"))\n        .and(parser(value))\n        .parse_stream(input)\n        .into_result()\n}\n\npub fn value<"))
PV = "    ident(\"true\")\n        .map(|_| Value::Boolean(true))\n        .or(ident(\"false\").map(|_| Value::Boolean(false)))\n        .or(ident(\"null\").map(|_| Value::Null))\n        .or(name::<'a, T>().map(Value::Enum))\n"
same("rf-plain-name", C, PV, "    name::<'a, T>()\n        .map(|word| match word.as_ref() {\n            \"true\" => Value::Boolean(true),\n            \"false\" => Value::Boolean(false),\n            \"null\" => Value::Null,\n            _ => Value::Enum(word),\n        })\n")
same("rf-plain-choice", C, PV + "        .or(parser(int_value))\n        .or(parser(float_value))\n        .or(parser(string_value))\n        .or(parser(block_string_value))\n", "    choice((\n        parser(int_value),\n        parser(float_value),\n        parser(string_value),\n        parser(block_string_value),\n        ident(\"true\").map(|_| Value::Boolean(true)),\n        ident(\"false\").map(|_| Value::Boolean(false)),\n        ident(\"null\").map(|_| Value::Null),\n        name::<'a, T>().map(Value::Enum),\n    ))\n")
same("rf-plain-string", (C, "        .or(parser(string_value))\n        .or(parser(block_string_value))\n", "        .or(parser(string).map(Value::String))\n"), (C, "pub fn string_value<", "#[allow(dead_code)]\npub fn string_value<"), (C, "pub fn block_string_value<", "#[allow(dead_code)]\npub fn block_string_value<"))
same("rf-string-or", C, "    choice((\n        kind(T::StringValue).and_then(|tok| unquote_string(tok.value)),\n        kind(T::BlockString).and_then(|tok| unquote_block_string(tok.value)),\n    ))\n", "    kind(T::StringValue)\n        .and_then(|tok| unquote_string(tok.value))\n        .or(kind(T::BlockString).and_then(|tok| unquote_block_string(tok.value)))\n")
same("rf-dirs-tuple", C, "        position()\n            .skip(punct(\"@\"))\n            .and(name::<'a, T>())\n            .and(parser(arguments))\n            .map(|((position, name), arguments)| Directive {", "        (position(), punct(\"@\").with(name::<'a, T>()), parser(arguments))\n            .map(|(position, name, arguments)| Directive {")
same("rf-dirs-fn", (C, "    many(\n        position()\n            .skip(punct(\"@\"))\n            .and(name::<'a, T>())\n            .and(parser(arguments))\n            .map(|((position, name), arguments)| Directive {\n                position,\n                name,\n                arguments,\n            }),\n    )\n", "    many(parser(directive))\n"), (C, "pub fn directives<", "fn directive<'a, T: Text<'a>>(\n    input: &mut TokenStream<'a>,\n) -> StdParseResult<Directive<'a, T>, TokenStream<'a>> {\n    (position().skip(punct(\"@\")), name::<'a, T>(), parser(arguments))\n        .map(|(position, name, arguments)| Directive { position, name, arguments })\n        .parse_stream(input)\n        .into_result()\n}\n\npub fn directives<"))
same("rf-args-match", C, "    .map(|opt| opt.unwrap_or_default())\n    .parse_stream(input)", "    .map(|opt| match opt {\n        None => vec![],\n        Some(args) => args,\n    })\n    .parse_stream(input)")
same("rf-args-between", C, "        punct(\"(\")\n            .with(many1(name::<'a, T>().skip(punct(\":\")).and(parser(value))))\n            .skip(punct(\")\")),\n", "        combine::between(\n            punct(\"(\"),\n            punct(\")\"),\n            many1((name::<'a, T>().skip(punct(\":\")), parser(value))),\n        ),\n")
TY = "        .and(optional(punct(\"!\")).map(|v| v.is_some()))\n        .map(|(typ, strict)| {\n            if strict {\n                Type::NonNullType(Box::new(typ))\n            } else {\n                typ\n            }\n        })\n"
same("rf-type-match", C, TY, "        .and(optional(punct(\"!\")))\n        .map(|(typ, bang)| match bang {\n            Some(_) => Type::NonNullType(Box::new(typ)),\n            None => typ,\n        })\n")
same("rf-type-early", C, TY, "        .and(optional(punct(\"!\")))\n        .map(|(typ, bang)| {\n            if bang.is_none() {\n                return typ;\n            }\n            Type::NonNullType(Box::new(typ))\n        })\n")
same("rf-type-list", C, "            .map(Box::new)\n            .map(Type::ListType))", "            .map(|inner| Type::ListType(Box::new(inner))))")
same("rf-type-split", (C, "    name::<'a, T>()\n        .map(Type::NamedType)\n        .or(punct(\"[\")\n            .with(parser(parse_type))\n            .skip(punct(\"]\"))\n            .map(Box::new)\n            .map(Type::ListType))\n        .and(", "    parser(nullable_type)\n        .and("), (C, "pub fn parse_type<", "fn nullable_type<'a, T: Text<'a>>(input: &mut TokenStream<'a>) -> StdParseResult<Type<'a, T>, TokenStream<'a>> {\n    choice((\n        name::<'a, T>().map(Type::NamedType),\n        punct(\"[\").with(parser(parse_type)).skip(punct(\"]\")).map(|t| Type::ListType(Box::new(t))),\n    ))\n    .parse_stream(input)\n    .into_result()\n}\n\npub fn parse_type<"))
# ---- helpers
same("rf-help-kind", H, "satisfy(|c: Token<'a>| c.kind == self.kind).parse_lazy(input)", "let kind = self.kind;\n        satisfy(move |token: Token<'a>| token.kind == kind).parse_lazy(input)")
same("rf-help-val", H, "satisfy(|c: Token<'a>| c.kind == self.kind && c.value == self.value).parse_lazy(input)", "satisfy(|Token { kind, value }: Token<'a>| value == self.value && kind == self.kind).parse_lazy(input)")
same("rf-help-val2", (H, "satisfy(|c: Token<'a>| c.kind == self.kind && c.value == self.value).parse_lazy(input)", "satisfy(|c: Token<'a>| self.matches(&c)).parse_lazy(input)"), (H, "impl<'a> Parser<TokenStream<'a>> for Value<'a> {", "impl<'a> Value<'a> {\n    fn matches(&self, token: &Token<'_>) -> bool {\n        token.kind == self.kind && token.value == self.value\n    }\n}\n\nimpl<'a> Parser<TokenStream<'a>> for Value<'a> {"))
same("rf-help-name", H, "        satisfy(|c: Token<'a>| c.kind == Kind::Name)\n            .map(|t: Token<'a>| -> S::Value { S::Value::from(t.value) })\n            .parse_lazy(input)", "        combine::satisfy_map(|token: Token<'a>| match token.kind {\n            Kind::Name => Some(S::Value::from(token.value)),\n            _ => None,\n        })\n        .parse_lazy(input)")
same("rf-help-name2", H, "            .map(|t: Token<'a>| -> S::Value { S::Value::from(t.value) })", "            .map(|t: Token<'a>| t.value.into())")
same("rf-help-name3", H, "        satisfy(|c: Token<'a>| c.kind == Kind::Name)\n            .map(|t", "        kind(Kind::Name)\n            .map(|t")
same("rf-help-matches", H, "satisfy(|c: Token<'a>| c.kind == Kind::Name)", "satisfy(|c: Token<'a>| matches!(c.kind, Kind::Name))")
# ---- schema
DUP = "                for (oper, type_name) in operations {\n                    match oper.value {\n                        \"query\" if query.is_some() => {\n                            err.add_error(Error::unexpected_static_message(\n                                \"duplicate `query` operation\",\n                            ));\n                        }\n                        \"query\" => {\n                            query = Some(type_name);\n                        }\n                        \"mutation\" if mutation.is_some() => {\n                            err.add_error(Error::unexpected_static_message(\n                                \"duplicate `mutation` operation\",\n                            ));\n                        }\n                        \"mutation\" => {\n                            mutation = Some(type_name);\n                        }\n                        \"subscription\" if subscription.is_some() => {\n                            err.add_error(Error::unexpected_static_message(\n                                \"duplicate `subscription` operation\",\n                            ));\n                        }\n                        \"subscription\" => {\n                            subscription = Some(type_name);\n                        }\n                        _ => {\n                            err.add_error(Error::unexpected_token(oper));\n                            err.add_error(Error::expected_static_message(\"query\"));\n                            err.add_error(Error::expected_static_message(\"mutation\"));\n                            err.add_error(Error::expected_static_message(\"subscription\"));\n                        }\n                    }\n                }\n"
SLOT = "                for (oper, type_name) in operations {\n                    let (slot, duplicate) = match oper.value {\n                        \"query\" => (&mut query, \"duplicate `query` operation\"),\n                        \"mutation\" => (&mut mutation, \"duplicate `mutation` operation\"),\n                        \"subscription\" => (&mut subscription, \"duplicate `subscription` operation\"),\n                        _ => {\n                            err.add_error(Error::unexpected_token(oper));\n                            for name in [\"query\", \"mutation\", \"subscription\"] {\n                                err.add_error(Error::expected_static_message(name));\n                            }\n                            continue;\n                        }\n                    };\n                    if slot.is_some() {\n                        err.add_error(Error::unexpected_static_message(duplicate));\n                    } else {\n                        *slot = Some(type_name);\n                    }\n                }\n"
same("rf-schema-slot", S, DUP, SLOT)
same("rf-schema-replace", S, DUP, SLOT.replace("                    if slot.is_some() {\n                        err.add_error(Error::unexpected_static_message(duplicate));\n                    } else {\n                        *slot = Some(type_name);\n                    }\n", "                    if slot.replace(type_name).is_some() {\n                        err.add_error(Error::unexpected_static_message(duplicate));\n                    }\n"))
same("rf-schema-foreach", S, DUP, DUP.replace("for (oper, type_name) in operations {", "operations.into_iter().for_each(|(oper, type_name)| {").rstrip("\n").rstrip("}") + "});\n")
same("rf-schema-while", S, DUP, DUP.replace("for (oper, type_name) in operations {", "let mut operations = operations.into_iter();\n                while let Some((oper, type_name)) = operations.next() {"))
same("rf-schema-result", S, "                if !err.errors.is_empty() {\n                    return Err(err);\n                }\n                Ok(SchemaDefinition {\n                    position,\n                    directives,\n                    query,\n                    mutation,\n                    subscription,\n                })\n", "                let definition = SchemaDefinition {\n                    position,\n                    directives,\n                    query,\n                    mutation,\n                    subscription,\n                };\n                if err.errors.is_empty() {\n                    Ok(definition)\n                } else {\n                    Err(err)\n                }\n")
same("rf-ext-else", S, "            if directives.is_empty() {\n                let mut e = Errors::empty(position);\n                e.add_error(Error::expected_static_message(\n                    \"Scalar type extension should contain at least \\\n                 one directive.\",\n                ));\n                return Err(e);\n            }\n            Ok(ScalarTypeExtension {\n                position,\n                name,\n                directives,\n            })\n", "            if !directives.is_empty() {\n                Ok(ScalarTypeExtension {\n                    position,\n                    name,\n                    directives,\n                })\n            } else {\n                let mut e = Errors::empty(position);\n                e.add_error(Error::expected_static_message(\n                    \"Scalar type extension should contain at least \\\n                 one directive.\",\n                ));\n                Err(e)\n            }\n")
same("rf-ext-len", S, "            if directives.is_empty() && types.is_none() {", "            let nothing = directives.len() == 0 && types.is_none();\n            if nothing {")
same("rf-ext-demorgan", S, "            if interfaces.is_empty() && directives.is_empty() && fields.is_empty() {", "            let extends = !interfaces.is_empty() || !directives.is_empty() || !fields.is_empty();\n            if !extends {")
same("rf-ext-struct", S, "            if directives.is_empty() && values.is_none() {\n                let mut e = Errors::empty(position);\n                e.add_error(Error::expected_static_message(\n                    \"Enum type extension should contain at least \\\n                 one directive or value.\",\n                ));\n                return Err(e);\n            }\n            Ok(EnumTypeExtension {\n                position,\n                name,\n                directives,\n                values: values.unwrap_or_else(Vec::new),\n            })\n", "            let ext = EnumTypeExtension {\n                position,\n                name,\n                directives,\n                values: values.unwrap_or_default(),\n            };\n            // the grammar has no empty list of values\n            if ext.directives.is_empty() && ext.values.is_empty() {\n                let mut e = Errors::empty(position);\n                e.add_error(Error::expected_static_message(\n                    \"Enum type extension should contain at least \\\n                 one directive or value.\",\n                ));\n                return Err(e);\n            }\n            Ok(ext)\n")
DESC = "            match def {\n                T(Scalar(ref mut s)) => s.description = descr,\n                T(Object(ref mut o)) => o.description = descr,\n                T(Interface(ref mut i)) => i.description = descr,\n                T(Union(ref mut u)) => u.description = descr,\n                T(Enum(ref mut e)) => e.description = descr,\n                T(InputObject(ref mut o)) => o.description = descr,\n                DirectiveDefinition(ref mut d) => d.description = descr,\n                SchemaDefinition(_) => unreachable!(),\n                TypeExtension(_) => unreachable!(),\n            }\n            def\n"
same("rf-desc-slot", S, DESC, "            let slot = match def {\n                T(Scalar(ref mut s)) => &mut s.description,\n                T(Object(ref mut o)) => &mut o.description,\n                T(Interface(ref mut i)) => &mut i.description,\n                T(Union(ref mut u)) => &mut u.description,\n                T(Enum(ref mut e)) => &mut e.description,\n                T(InputObject(ref mut o)) => &mut o.description,\n                DirectiveDefinition(ref mut d) => &mut d.description,\n                SchemaDefinition(_) | TypeExtension(_) => unreachable!(),\n            };\n            *slot = descr;\n            def\n")
same("rf-desc-method", (S, "        .map(|(descr, mut def)| {\n            use crate::schema::ast::Definition::TypeDefinition as T;\n            use crate::schema::ast::Definition::*;\n            use crate::schema::ast::TypeDefinition::*;\n" + DESC + "        })\n", "        .map(|(description, definition)| with_description(definition, description))\n"), (S, "pub fn described_definition<", "fn with_description<'a, X: Text<'a>>(mut def: Definition<'a, X>, descr: Option<String>) -> Definition<'a, X> {\n    match &mut def {\n        Definition::TypeDefinition(t) => match t {\n            TypeDefinition::Scalar(x) => x.description = descr,\n            TypeDefinition::Object(x) => x.description = descr,\n            TypeDefinition::Interface(x) => x.description = descr,\n            TypeDefinition::Union(x) => x.description = descr,\n            TypeDefinition::Enum(x) => x.description = descr,\n            TypeDefinition::InputObject(x) => x.description = descr,\n        },\n        Definition::DirectiveDefinition(x) => x.description = descr,\n        Definition::SchemaDefinition(_) | Definition::TypeExtension(_) => unreachable!(),\n    }\n    def\n}\n\npub fn described_definition<"))
same("rf-desc-iflet", S, "            match def {\n                T(Scalar", "            if descr.is_none() {\n                return def;\n            }\n            match def {\n                T(Scalar")
same("rf-types-default", S, "                types: types.unwrap_or_else(Vec::new),\n                description", "                types: types.unwrap_or_default(),\n                description")
same("rf-members-opt", S, "        optional(punct(\"=\").with(parser(union_members::<T>))),\n    )\n        .map(|(position, name, directives, types)| {\n            UnionType {\n                position,\n                name,\n                directives,\n                types: types.unwrap_or_else(Vec::new),", "        optional(punct(\"=\").with(parser(union_members::<T>))).map(Option::unwrap_or_default),\n    )\n        .map(|(position, name, directives, types)| {\n            UnionType {\n                position,\n                name,\n                directives,\n                types,")
same("rf-fields-between", S, "    optional(punct(\"{\").with(many1(parser(field))).skip(punct(\"}\")))\n", "    optional(combine::between(punct(\"{\"), punct(\"}\"), many1(parser(field))))\n")
same("rf-fields-generic", (S, "    optional(punct(\"{\").with(many1(parser(field))).skip(punct(\"}\")))\n        .map(|v| v.unwrap_or_default())\n", "    braced_list(parser(field))\n"), (S, "    optional(punct(\"{\").with(many1(parser(input_value))).skip(punct(\"}\")))\n        .map(|v| v.unwrap_or_default())\n", "    braced_list(parser(input_value))\n"), (S, "pub fn fields<", "fn braced_list<'a, P>(item: P) -> impl Parser<TokenStream<'a>, Output = Vec<P::Output>>\nwhere\n    P: Parser<TokenStream<'a>>,\n{\n    optional(punct(\"{\").with(many1(item)).skip(punct(\"}\")))\n        .map(|items: Option<Vec<P::Output>>| items.unwrap_or_default())\n}\n\npub fn fields<"))
same("rf-def-or", S, "    choice((\n        parser(schema).map(Definition::SchemaDefinition),\n        parser(type_extension).map(Definition::TypeExtension),\n        parser(described_definition),\n    ))\n", "    parser(schema)\n        .map(Definition::SchemaDefinition)\n        .or(parser(type_extension).map(Definition::TypeExtension))\n        .or(parser(described_definition))\n")
same("rf-dirdef-rep2", (S, "        optional(ident(\"repeatable\")),\n", "        optional(ident(\"repeatable\")).map(|word| word.is_some()),\n"), (S, "                repeatable: repeatable.is_some(),\n", "                repeatable,\n"))
same("rf-locs-fromstr", S, "kind(T::Name).and_then(|tok| tok.value.parse::<DirectiveLocation>()),", "kind(T::Name).and_then(|tok| <DirectiveLocation as std::str::FromStr>::from_str(tok.value)),")
same("rf-descr-shared", (S, "        optional(parser(string)),\n        name::<'a, S>(),\n        parser(arguments_definition),", "        parser(description),\n        name::<'a, S>(),\n        parser(arguments_definition),"), (S, "pub fn field<", "fn description<'a>(input: &mut TokenStream<'a>) -> StdParseResult<Option<String>, TokenStream<'a>> {\n    optional(parser(string)).parse_stream(input).into_result()\n}\n\npub fn field<"))
same("rf-iface-and", S, "            .skip(optional(punct(\"&\")))\n            .with(sep_by1(name::<'a, X>(), punct(\"&\"))),", "            .with(optional(punct(\"&\")).with(sep_by1(name::<'a, X>(), punct(\"&\")))),")
same("rf-iface-new", S, "        .map(|(position, name, interfaces, directives, fields)| {\n            InterfaceType {\n                position,\n                name,\n                implements_interfaces: interfaces,\n                directives,\n                fields,\n                description: None, // is filled in described_definition\n            }\n        })\n", "        .map(|(position, name, implements_interfaces, directives, fields)| {\n            let mut iface = InterfaceType::new(name);\n            iface.position = position;\n            iface.implements_interfaces = implements_interfaces;\n            iface.directives = directives;\n            iface.fields = fields;\n            iface\n        })\n")
same("rf-scalar-update", S, "        .map(|(position, name, directives)| ScalarType {\n            position,\n            description: None,\n            name,\n            directives,\n        })\n", "        .map(|(position, name, directives)| ScalarType {\n            position,\n            directives,\n            ..ScalarType::new(name)\n        })\n")
same("rf-loc-return", (A, "        let val = match s {\n            \"QUERY\" => Query,", "        Ok(match s {\n            \"QUERY\" => Query,"), (A, "            _ => return Err(InvalidDirectiveLocation),\n        };\n\n        Ok(val)\n", "            _ => return Err(InvalidDirectiveLocation),\n        })\n"))
same("rf-loc-matches", A, "        use self::DirectiveLocation::*;\n        match *self {\n            Query | Mutation | Subscription | Field | FragmentDefinition | FragmentSpread\n            | InlineFragment | VariableDefinition => true,\n\n            Schema | Scalar | Object | FieldDefinition | ArgumentDefinition | Interface | Union\n            | Enum | EnumValue | InputObject | InputFieldDefinition => false,\n        }\n", "        use self::DirectiveLocation::*;\n        matches!(\n            self,\n            Query | Mutation | Subscription | Field | FragmentDefinition | FragmentSpread\n                | InlineFragment | VariableDefinition\n        )\n")
same("rf-loc-list", (A, "        let val = match s {\n            \"QUERY\" => Query,\n            \"MUTATION\" => Mutation,\n            \"SUBSCRIPTION\" => Subscription,\n            \"FIELD\" => Field,\n            \"FRAGMENT_DEFINITION\" => FragmentDefinition,\n            \"FRAGMENT_SPREAD\" => FragmentSpread,\n            \"INLINE_FRAGMENT\" => InlineFragment,\n            \"SCHEMA\" => Schema,\n            \"SCALAR\" => Scalar,\n            \"OBJECT\" => Object,\n            \"FIELD_DEFINITION\" => FieldDefinition,\n            \"ARGUMENT_DEFINITION\" => ArgumentDefinition,\n            \"INTERFACE\" => Interface,\n            \"UNION\" => Union,\n            \"ENUM\" => Enum,\n            \"ENUM_VALUE\" => EnumValue,\n            \"INPUT_OBJECT\" => InputObject,\n            \"INPUT_FIELD_DEFINITION\" => InputFieldDefinition,\n            \"VARIABLE_DEFINITION\" => VariableDefinition,\n            _ => return Err(InvalidDirectiveLocation),\n        };\n\n        Ok(val)\n", "        [\n            Query, Mutation, Subscription, Field, FragmentDefinition, FragmentSpread, InlineFragment,\n            Schema, Scalar, Object, FieldDefinition, ArgumentDefinition, Interface, Union, Enum,\n            EnumValue, InputObject, InputFieldDefinition, VariableDefinition,\n        ]\n        .iter()\n        .find(|location| location.as_str() == s)\n        .cloned()\n        .ok_or(InvalidDirectiveLocation)\n"))
