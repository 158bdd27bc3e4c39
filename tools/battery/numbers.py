G = "common.rs"; Q = "query/format.rs"
IV = "        .and_then(|tok| tok.value.parse())\n        .map(Number)\n        .map(Value::Int)\n"
FL = "            Ok(val) if val.is_finite() => Ok(val),\n            Ok(_) => Err(Error::Unexpected(Info::Static(\"float out of range\"))),\n            Err(e) => Err(Error::from(e)),\n"
bug("P19", "n-i32", (G, IV, "        .and_then(|tok| tok.value.parse::<i32>())\n        .map(|v| Number(v as i64))\n        .map(Value::Int)\n"))
bug("P19", "n-u64", (G, IV, "        .and_then(|tok| tok.value.parse::<u64>())\n        .map(|v| Number(v as i64))\n        .map(Value::Int)\n"))
bug("P19", "n-sat", (G, IV, "        .map(|tok| tok.value.parse().unwrap_or(i64::MAX))\n        .map(Number)\n        .map(Value::Int)\n"))
bug("P19", "n-i128", (G, IV, "        .and_then(|tok| tok.value.parse::<i128>())\n        .map(|v| Number(v as i64))\n        .map(Value::Int)\n"))
bug("P19", "n-float-int", (G, IV, "        .and_then(|tok| tok.value.parse::<f64>())\n        .map(|v| Number(v as i64))\n        .map(Value::Int)\n"))
bug("P19", "n-int-float", (G, IV, "        .and_then(|tok| tok.value.parse::<i64>().map(|v| Value::Int(Number(v))).or_else(|_| tok.value.parse::<f64>().map(Value::Float)))\n"))
bug("P19", "n-f32", (G, "tok.value.parse::<f64>() {\n            Ok(val) if val.is_finite() => Ok(val),", "tok.value.parse::<f32>() {\n            Ok(val) if val.is_finite() => Ok(val as f64),"))
bug("P19", "n-inf", (G, "Ok(val) if val.is_finite() => Ok(val),", "Ok(val) if !val.is_nan() => Ok(val),"))
bug("P19", "n-float-range", (G, "Ok(val) if val.is_finite() => Ok(val),", "Ok(val) if val.is_finite() && val.abs() < 1e300 => Ok(val),"))
bug("P19", "n-float-clamp", (G, "            Ok(_) => Err(Error::Unexpected(Info::Static(\"float out of range\"))),\n", "            Ok(_) => Ok(f64::MAX),\n"))
bug("P19", "n-int-trim", (G, "        .and_then(|tok| tok.value.parse())\n", "        .and_then(|tok| tok.value.trim_start_matches('-').parse())\n"))
bug("P19", "n-from", (G, "Number(i as i64)", "Number(i as u32 as i64)"))
bug("P19", "n-from-16", (G, "Number(i as i64)", "Number(i as i16 as i64)"))
bug("P19", "n-get", (G, "        Some(self.0)", "        if self.0 == i64::MIN { None } else { Some(self.0) }"))
bug("P19", "n-get-32", (G, "        Some(self.0)", "        Some(self.0 as i32 as i64)"))
bug("P19", "n-print-32", (Q, "f.write(&format!(\"{}\", num.0))", "f.write(&format!(\"{}\", num.0 as i32))"))
bug("P19", "n-print-f32", (Q, "=> f.write(&format!(\"{}\", val)),", "=> f.write(&format!(\"{}\", val as f32)),"))
bug("P19", "n-print-prec", (Q, "=> f.write(&format!(\"{}\", val)),", "=> f.write(&format!(\"{:.15}\", val)),"))
bug("P19", "n-print-trunc", (Q, "=> f.write(&format!(\"{}\", val)),", "=> f.write(&format!(\"{}\", val as i64)),"))
bug("P19", "n-print-plus", (Q, "f.write(&format!(\"{}\", num.0))", "f.write(&format!(\"{:+}\", num.0))"))
bug("P19", "n-print-abs", (Q, "f.write(&format!(\"{}\", num.0))", "f.write(&format!(\"{}\", num.0.unsigned_abs()))"))
bug("P19", "n-print-zero", (Q, "Value::Int(ref num) => f.write(&format!(\"{}\", num.0)),", "Value::Int(ref num) => { f.write(&format!(\"{}\", num.0)); f.write(\".0\") }"))
same("num-parse-match", (G, IV, "        .and_then(|tok| match tok.value.parse::<i64>() {\n            Ok(v) => Ok(Value::Int(Number(v))),\n            Err(e) => Err(e),\n        })\n"))
same("num-parse-map", (G, IV, "        .and_then(|tok| tok.value.parse::<i64>().map(|v| Value::Int(Number(v))))\n"))
same("num-parse-fromstr", (G, IV, "        .and_then(|tok| <i64 as std::str::FromStr>::from_str(tok.value))\n        .map(|v| Value::Int(Number(v)))\n"))
same("num-float-if", (G, "        .and_then(|tok| match tok.value.parse::<f64>() {\n" + FL + "        })\n", "        .and_then(|tok| {\n            let val = tok.value.parse::<f64>().map_err(Error::from)?;\n            if val.is_finite() {\n                Ok(val)\n            } else {\n                Err(Error::Unexpected(Info::Static(\"float out of range\")))\n            }\n        })\n"))
same("num-float-helper", (G, "        .and_then(|tok| match tok.value.parse::<f64>() {\n" + FL + "        })\n", "        .and_then(|tok| finite(tok.value))\n"), (G, "pub fn float_value<", "fn finite(s: &str) -> Result<f64, Error<Token<'_>, Token<'_>>> {\n    let val: f64 = match s.parse() {\n        Ok(v) => v,\n        Err(e) => return Err(Error::from(e)),\n    };\n    if val.is_infinite() || val.is_nan() {\n        return Err(Error::Unexpected(Info::Static(\"float out of range\")));\n    }\n    Ok(val)\n}\n\npub fn float_value<"))
same("num-from", (G, "Number(i as i64)", "Number(i64::from(i))"))
same("num-from-into", (G, "Number(i as i64)", "Self(i.into())"))
same("num-get", (G, "        Some(self.0)", "        let Number(v) = *self;\n        Some(v)"))
same("num-get-copy", (G, "        Some(self.0)", "        let v = &self.0;\n        Some(*v)"))
same("num-print", (Q, "f.write(&format!(\"{}\", num.0))", "f.write(&num.0.to_string())"))
same("num-print-helper", (Q, "f.write(&format!(\"{}\", num.0))", "{\n                let v = num.as_i64().unwrap_or(0);\n                f.write(&v.to_string())\n            }"))
same("num-float-print", (Q, "            Value::Float(val) if val.abs() < 1e16 => f.write(&format!(\"{}\", val)),\n            // all digits of a larger number would read as an integer\n            Value::Float(val) => f.write(&format!(\"{:?}\", val)),\n", "            Value::Float(val) => {\n                let text = if val > -1e16 && val < 1e16 {\n                    format!(\"{}\", val)\n                } else {\n                    format!(\"{:?}\", val)\n                };\n                f.write(&text)\n            }\n"))
