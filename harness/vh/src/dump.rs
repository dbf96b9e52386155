//! Canonical JSON dump of descriptors: every field is present, an optional
//! field is a 0/1 element array, text that may hold arbitrary characters is a
//! plain JSON string, bytes are arrays of numbers, 64 bit numbers are strings.
use prost_types::{source_code_info, DescriptorProto, EnumDescriptorProto, EnumOptions, EnumValueOptions, FieldDescriptorProto, FieldOptions, FileDescriptorProto, FileOptions, MessageOptions, MethodOptions, ServiceDescriptorProto, ServiceOptions, UninterpretedOption};
use serde_json::{json, Value};

fn o<T: Into<Value> + Clone>(v: &Option<T>) -> Value {
    match v {
        Some(v) => Value::Array(vec![v.clone().into()]),
        None => Value::Array(vec![]),
    }
}

fn f64s(v: f64) -> String {
    if v.is_nan() {
        "nan".into()
    } else {
        format!("{:016x}", v.to_bits())
    }
}

fn list<T>(v: &[T], f: impl Fn(&T) -> Value) -> Value {
    Value::Array(v.iter().map(f).collect())
}

pub fn file(f: &FileDescriptorProto) -> Value {
    json!({
        "name": o(&f.name),
        "package": o(&f.package),
        "dependency": f.dependency,
        "public_dependency": f.public_dependency,
        "weak_dependency": f.weak_dependency,
        "message": list(&f.message_type, message),
        "enum": list(&f.enum_type, enm),
        "service": list(&f.service, service),
        "extension": list(&f.extension, field),
        "options": f.options.iter().map(|x| {
            let rest = FileOptions { uninterpreted_option: vec![], ..x.clone() } != FileOptions::default();
            opts(&x.uninterpreted_option, rest)
        }).collect::<Vec<_>>(),
        "syntax": o(&f.syntax),
        "locs": f.source_code_info.as_ref().map(|i| list(&i.location, loc)).unwrap_or(Value::Null),
    })
}

fn loc(l: &source_code_info::Location) -> Value {
    json!({
        "path": l.path,
        "span": l.span,
        "lead": o(&l.leading_comments),
        "trail": o(&l.trailing_comments),
        "det": l.leading_detached_comments,
    })
}

fn opts(u: &[UninterpretedOption], rest: bool) -> Value {
    json!({ "u": list(u, unint), "interpreted": rest })
}

fn unint(u: &UninterpretedOption) -> Value {
    json!({
        "name": list(&u.name, |p| json!({"n": p.name_part, "ext": p.is_extension})),
        "ident": o(&u.identifier_value),
        "pos": o(&u.positive_int_value.map(|v| v.to_string())),
        "neg": o(&u.negative_int_value.map(|v| v.to_string())),
        "dbl": o(&u.double_value.map(f64s)),
        "str": u.string_value.iter().collect::<Vec<_>>(),
        "agg": o(&u.aggregate_value),
    })
}

fn message(m: &DescriptorProto) -> Value {
    json!({
        "name": o(&m.name),
        "field": list(&m.field, field),
        "extension": list(&m.extension, field),
        "nested": list(&m.nested_type, message),
        "enum": list(&m.enum_type, enm),
        "ext_range": list(&m.extension_range, |r| json!({
            "start": o(&r.start), "end": o(&r.end),
            "options": r.options.iter().map(|x| opts(&x.uninterpreted_option, false)).collect::<Vec<_>>(),
        })),
        "oneof": list(&m.oneof_decl, |x| json!({
            "name": o(&x.name),
            "options": x.options.iter().map(|x| opts(&x.uninterpreted_option, false)).collect::<Vec<_>>(),
        })),
        "options": m.options.iter().map(|x| {
            let me = x.map_entry == Some(true);
            let rest = MessageOptions { uninterpreted_option: vec![], map_entry: None, ..x.clone() } != MessageOptions::default();
            let mut v = opts(&x.uninterpreted_option, rest);
            v["map_entry"] = me.into();
            v
        }).collect::<Vec<_>>(),
        "res_range": list(&m.reserved_range, |r| json!({"start": o(&r.start), "end": o(&r.end)})),
        "res_name": m.reserved_name,
    })
}

fn field(f: &FieldDescriptorProto) -> Value {
    json!({
        "name": o(&f.name),
        "number": o(&f.number),
        "label": o(&f.label),
        "type": o(&f.r#type),
        "type_name": o(&f.type_name),
        "extendee": o(&f.extendee),
        "default": o(&f.default_value),
        "oneof_index": o(&f.oneof_index),
        "json_name": o(&f.json_name),
        "p3opt": o(&f.proto3_optional),
        "options": f.options.iter().map(|x| {
            let rest = FieldOptions { uninterpreted_option: vec![], ..x.clone() } != FieldOptions::default();
            opts(&x.uninterpreted_option, rest)
        }).collect::<Vec<_>>(),
    })
}

fn enm(e: &EnumDescriptorProto) -> Value {
    json!({
        "name": o(&e.name),
        "value": list(&e.value, |v| json!({
            "name": o(&v.name), "number": o(&v.number),
            "options": v.options.iter().map(|x| {
                let rest = EnumValueOptions { uninterpreted_option: vec![], ..x.clone() } != EnumValueOptions::default();
                opts(&x.uninterpreted_option, rest)
            }).collect::<Vec<_>>(),
        })),
        "options": e.options.iter().map(|x| {
            let rest = EnumOptions { uninterpreted_option: vec![], ..x.clone() } != EnumOptions::default();
            opts(&x.uninterpreted_option, rest)
        }).collect::<Vec<_>>(),
        "res_range": list(&e.reserved_range, |r| json!({"start": o(&r.start), "end": o(&r.end)})),
        "res_name": e.reserved_name,
    })
}

fn service(s: &ServiceDescriptorProto) -> Value {
    json!({
        "name": o(&s.name),
        "method": list(&s.method, |m| json!({
            "name": o(&m.name),
            "input": o(&m.input_type),
            "output": o(&m.output_type),
            "cs": o(&m.client_streaming),
            "ss": o(&m.server_streaming),
            "options": m.options.iter().map(|x| {
                let rest = MethodOptions { uninterpreted_option: vec![], ..x.clone() } != MethodOptions::default();
                opts(&x.uninterpreted_option, rest)
            }).collect::<Vec<_>>(),
        })),
        "options": s.options.iter().map(|x| {
            let rest = ServiceOptions { uninterpreted_option: vec![], ..x.clone() } != ServiceOptions::default();
            opts(&x.uninterpreted_option, rest)
        }).collect::<Vec<_>>(),
    })
}
