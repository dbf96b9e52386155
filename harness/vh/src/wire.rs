//! encoded descriptor sets
use crate::comp::{error, raw, raw_options, unhex};
use bytes::{Buf, Bytes};
use protox::file::{DescriptorSetFileResolver, File, FileResolver};
use protox::Compiler;
use serde_json::{json, Value};

fn brief(f: &File) -> Value {
    let d = f.file_descriptor_proto();
    json!({
        "name": f.name(), "has": d.name.is_some(), "pkg": d.package(), "deps": d.dependency, "syntax": d.syntax(),
        "msgs": d.message_type.iter().map(|m| m.name()).collect::<Vec<_>>(),
        "path": f.path().is_some(), "source": f.source().is_some(),
    })
}

fn lookups(buf: impl Buf, names: &[&str]) -> Value {
    match DescriptorSetFileResolver::decode(buf) {
        Err(_) => json!("err"),
        Ok(r) => names.iter().map(|n| r.open_file(n).map(|f| brief(&f)).unwrap_or_else(|e| error(&e))).collect(),
    }
}

fn file(buf: impl Buf) -> Value {
    match File::decode_file_descriptor_proto(buf) {
        Err(_) => json!("err"),
        Ok(f) => brief(&f),
    }
}

pub fn wire(case: &Value) -> Value {
    let b = unhex(case["hex"].as_str().unwrap());
    let names: Vec<&str> = case["names"].as_array().unwrap().iter().map(|n| n.as_str().unwrap()).collect();
    let set = lookups(b.as_slice(), &names);
    let one = file(b.as_slice());
    let mut differ = vec![];
    if lookups(Bytes::from(b.clone()), &names) != set || file(Bytes::from(b.clone())) != one {
        differ.push(json!("Bytes"));
    }
    for i in 0..=b.len() {
        let (x, y) = b.split_at(i);
        if lookups(x.chain(y), &names) != set || file(x.chain(y)) != one {
            differ.push(json!(i));
        }
    }
    // three parts
    for i in 0..b.len() / 2 {
        let (x, y, z) = (&b[..i], &b[i..b.len() - i], &b[b.len() - i..]);
        if lookups(x.chain(y).chain(z), &names) != set {
            differ.push(json!([i]));
        }
    }
    let mut comp = vec![];
    if case["compile"] == true {
        let output = |r: DescriptorSetFileResolver, n: &str| {
            let mut c = Compiler::with_file_resolver(r);
            c.include_imports(true).include_source_info(true);
            c.open_file(n).map(|c| c.encode_file_descriptor_set()).map_err(|e| error(&e))
        };
        for n in &names {
            // what is passed on does not depend on how the bytes came
            let whole = output(DescriptorSetFileResolver::decode(b.as_slice()).unwrap(), n);
            for i in 0..=b.len() {
                if DescriptorSetFileResolver::decode(b[..i].chain(&b[i..])).map(|r| output(r, n) == whole) != Ok(true) {
                    differ.push(json!([n, i]));
                }
            }
            for info in [true, false] {
                let mut c = Compiler::with_file_resolver(DescriptorSetFileResolver::decode(b.as_slice()).unwrap());
                comp.push(match c.open_file(n).map(|_| ()) {
                    Err(e) => error(&e),
                    Ok(()) => {
                        let enc = c.include_imports(true).include_source_info(info).encode_file_descriptor_set();
                        let opts: Vec<Value> =
                            raw(&enc).unwrap().into_iter().map(|(n, v)| if n == 1 { raw_options(&unhex(v.as_str().unwrap())) } else { json!(n) }).collect();
                        let names: Vec<Value> = c.files().map(|f| json!([f.name(), f.is_import(), f.path().is_some()])).collect();
                        json!({"files": names, "opts": opts,
                               "fds": c.file_descriptor_set().file.iter().map(|f| brief(&File::from(f.clone()))).collect::<Vec<_>>()})
                    }
                });
            }
        }
    }
    json!({"set": set, "file": one, "differ": differ, "compile": comp})
}

/// what the library makes of a run of the command line tool
pub fn lib(case: &Value) -> Value {
    std::env::set_current_dir(case["cwd"].as_str().unwrap()).expect("cwd");
    let strs = |k: &str| case[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_owned()).collect::<Vec<_>>();
    let mut c = Compiler::new(strs("incs")).expect("new");
    c.include_imports(case["imports"] == true).include_source_info(case["sinfo"] == true);
    let r = c.open_files(strs("files")).map(|_| ());
    match r {
        Err(e) => error(&e),
        Ok(()) => {
            let b = c.encode_file_descriptor_set();
            let set = c.file_descriptor_set();
            json!({"hex": crate::comp::hex(&b), "names": set.file.iter().map(|f| json!([f.name(), f.package(), f.source_code_info.is_some()])).collect::<Vec<_>>()})
        }
    }
}
