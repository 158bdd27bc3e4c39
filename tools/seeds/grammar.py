# seed(id, property, edits, main.rs, needs, what it breaks)
Q = "query/grammar.rs"; SC = "schema/grammar.rs"; CM = "common.rs"; H = "helpers.rs"

seed("P01-variable-twice", "P01",
     (Q, ".map(|vars| vars.unwrap_or_default()),", ".map(|vars| vars.unwrap_or_default())\n            .map(|mut vars: Vec<VariableDefinition<'a, T>>| {\n                vars.dedup_by(|a, b| a.name.as_ref() == b.name.as_ref() && a.default_value.is_none() == b.default_value.is_none());\n                vars\n            }),"),
     '''use graphql_parser::query::*;
fn main() {
    let doc = parse_query::<String>("query($a: Int = 1 $a: Int = 2 $b: Int) { x }").unwrap();
    match &doc.definitions[0] {
        Definition::Operation(OperationDefinition::Query(q)) => {
            assert_eq!(q.variable_definitions.len(), 3, "a variable definition was dropped");
            assert_eq!(q.variable_definitions[1].default_value, Some(Value::Int(2.into())));
        }
        _ => panic!(),
    }
}
''', "an operation declaring the same variable twice in a row, both with a default value", "the second of two neighbouring variable definitions is dropped")

seed("P01-null-in-list-default", "P01",
     (CM, "        .or(punct(\"[\")\n            .with(many(parser(default_value)))\n            .skip(punct(\"]\"))\n            .map(Value::List))",
          "        .or(punct(\"[\")\n            .with(many(parser(default_value)))\n            .skip(punct(\"]\"))\n            .map(|items: Vec<Value<'a, T>>| match items.as_slice() {\n                [Value::Null] => Value::Null,\n                _ => Value::List(items),\n            }))"),
     '''use graphql_parser::query::*;
fn main() {
    let doc = parse_query::<&str>("query Q($a: [Int] = [null]) { x }").unwrap();
    match &doc.definitions[0] {
        Definition::Operation(OperationDefinition::Query(q)) =>
            assert_eq!(q.variable_definitions[0].default_value, Some(Value::List(vec![Value::Null]))),
        _ => panic!(),
    }
}
''', "a variable default that is a list with null as its only element", "the default value [null] becomes null")

seed("P02-scalar-extension-directives", "P02",
     (SC, "Ok(ScalarTypeExtension {\n                position,\n                name,\n                directives,", "Ok(ScalarTypeExtension {\n                position,\n                name,\n                directives: {\n                    let mut d: Vec<Directive<'a, T>> = directives;\n                    d.dedup_by(|a, b| a.name.as_ref() == b.name.as_ref() && a.arguments.len() == b.arguments.len());\n                    d\n                },"),
     '''use graphql_parser::schema::*;
fn main() {
    let doc = parse_schema::<String>("extend scalar E @tag(x: 1) @tag(x: 1) @other").unwrap();
    match &doc.definitions[0] {
        Definition::TypeExtension(TypeExtension::Scalar(e)) => assert_eq!(e.directives.len(), 3),
        _ => panic!(),
    }
}
''', "a scalar extension applying the same directive twice in a row with equally many arguments", "a repeated directive of a scalar extension is dropped")

seed("P02-schema-subscription-twice", "P02",
     (SC, "\"subscription\" if subscription.is_some() =>", "\"subscription\" if subscription.is_some() && mutation.is_none() =>"),
     '''use graphql_parser::schema::*;
fn main() {
    assert!(parse_schema::<String>("schema { query: Q mutation: M subscription: S }").is_ok());
    assert!(parse_schema::<String>("schema { subscription: S subscription: T }").is_err());
    assert!(parse_schema::<String>("schema { mutation: M subscription: S subscription: T }").is_err(), "a duplicate subscription was accepted");
}
''', "a schema block with a mutation and two subscriptions", "the duplicate root operation is accepted and the first is overwritten")

seed("P16-object-key-case", "P16",
     (CM, ".map(|(k, v)| (k.as_ref().into(), v.into_static()))\n                    .collect(),", ".map(|(k, v)| {\n                        let key: &str = k.as_ref();\n                        (key.trim_start_matches(\"__\").into(), v.into_static())\n                    })\n                    .collect(),"),
     '''use graphql_parser::query::*;
use std::collections::BTreeMap;
fn main() {
    let mut o: BTreeMap<&str, Value<&str>> = BTreeMap::new();
    o.insert("__id", Value::Int(1.into()));
    o.insert("id", Value::Int(2.into()));
    match Value::<&str>::Object(o).into_static() {
        Value::Object(m) => { assert_eq!(m.len(), 2, "a key was lost"); assert!(m.contains_key("__id")); }
        _ => panic!(),
    }
}
''', "an object value with a key that starts with two underscores", "keys change, and collide, when a value is detached from its input")

seed("P18-location-inputs", "P18",
     ("schema/ast.rs", "\"INPUT_OBJECT\" => InputObject,", "\"INPUT_OBJECT\" | \"INPUT\" => InputObject,"),
     '''use graphql_parser::schema::*;
fn main() {
    assert_eq!("INPUT_OBJECT".parse::<DirectiveLocation>().ok(), Some(DirectiveLocation::InputObject));
    assert!("INPUT".parse::<DirectiveLocation>().is_err(), "an unknown location was accepted");
    assert!(parse_schema::<String>("directive @a on INPUT").is_err());
}
''', "a directive location spelled INPUT", "an unknown directive location is accepted")
