//! Structural rendering of runtime values, independent of the language's own formatting code.
use ferlium::{
    hir::value::Value,
    std::{buffer::Buffer, math::Float, string::String as FString},
};
use serde_json::{Value as J, json};

pub fn to_json(v: &Value) -> J {
    match v {
        Value::Uninit => json!({ "uninit": true }),
        Value::Native(_) => native(v),
        Value::Variant { tag, .. } => match v.variant_payload() {
            None => json!({ "tag": tag.as_str() }),
            Some(p) if p.is_unit() => json!({ "tag": tag.as_str() }),
            Some(p) => json!({ "tag": tag.as_str(), "p": to_json(p) }),
        },
        Value::Tuple(fields) => {
            if let Some(items) = array(fields.as_slice()) {
                return json!({ "arr": items });
            }
            json!({ "tup": fields.iter().map(to_json).collect::<Vec<_>>() })
        }
        Value::Function(_) => json!({ "fn": true }),
        Value::Subscript(_) => json!({ "subscript": true }),
    }
}

fn array(fields: &[Value]) -> Option<Vec<J>> {
    if fields.len() != 4 {
        return None;
    }
    let buffer = fields[1].as_primitive_ty::<Buffer>()?;
    let len = usize::try_from(*fields[2].as_primitive_ty::<isize>()?).ok()?;
    let start = usize::try_from(*fields[3].as_primitive_ty::<isize>()?).ok()?;
    let cap = buffer.capacity();
    Some(
        (0..len)
            .map(|i| {
                let at = if cap == 0 { 0 } else { (start + i) % cap };
                buffer.get(at).map_or(json!({ "oob": at }), to_json)
            })
            .collect(),
    )
}

fn native(v: &Value) -> J {
    if v.is_unit() {
        json!(null)
    } else if let Some(b) = v.as_primitive_ty::<bool>() {
        json!(b)
    } else if let Some(i) = v.as_primitive_ty::<isize>() {
        json!(i)
    } else if let Some(f) = v.as_primitive_ty::<Float>() {
        json!({ "f": format!("{:?}", f.into_inner()) })
    } else if let Some(s) = v.as_primitive_ty::<FString>() {
        json!(s.to_string())
    } else {
        json!({ "native": format!("{v:?}") })
    }
}
