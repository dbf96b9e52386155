//! the compiler side: histories of operations on a Compiler over a resolver that records its calls
use crate::diag;
use bytes::Buf;
use miette::Diagnostic;
use prost::Message;
use protox::file::{ChainFileResolver, DescriptorSetFileResolver, File, FileResolver, GoogleFileResolver, IncludeFileResolver};
use protox::{Compiler, Error};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

#[derive(Default)]
pub struct World {
    files: HashMap<String, Value>,
    paths: HashMap<String, String>,
    calls: Vec<Value>,
    loaded: HashMap<String, Option<prost_types::SourceCodeInfo>>,
    /// where files of kind "disk" lie
    base: Option<PathBuf>,
}

impl World {
    fn set(&mut self, name: &str, f: &Value) {
        if let Some(base) = &self.base {
            let p = base.join(name);
            if f["kind"] == "disk" {
                std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
                std::fs::write(p, f["text"].as_str().expect("text")).expect("write");
            } else if p.exists() {
                std::fs::remove_file(p).expect("remove");
            }
        }
        self.files.insert(name.to_owned(), f.clone());
    }
}

#[derive(Clone)]
pub struct Recorder {
    world: Arc<Mutex<World>>,
    tag: String,
}

#[derive(Debug)]
struct Custom(String);
impl std::fmt::Display for Custom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "custom: {}", self.0)
    }
}
impl std::error::Error for Custom {}

pub fn make(name: &str, f: &Value) -> Result<File, Error> {
    match f["kind"].as_str().unwrap_or("nf") {
        "source" => File::from_source(name, f["text"].as_str().expect("text")),
        "proto" => {
            let mut fd = protox_parse::parse(name, f["text"].as_str().expect("text")).expect("text for a descriptor");
            if f["bare"].as_bool() == Some(true) {
                fd.source_code_info = None;
            }
            Ok(File::from_file_descriptor_proto(fd))
        }
        // the bytes of the text's descriptor, followed by extra bytes
        "encoded" => {
            let mut fd = protox_parse::parse(name, f["text"].as_str().expect("text")).expect("text for a descriptor");
            if f["bare"].as_bool() == Some(true) {
                fd.source_code_info = None;
            }
            let mut b = fd.encode_to_vec();
            b.extend(unhex(f["extra"].as_str().unwrap_or("")));
            Ok(File::decode_file_descriptor_proto(b.as_slice()).expect("descriptor"))
        }
        "nf" => Err(Error::file_not_found(f["other"].as_str().unwrap_or(name))),
        "custom" => Err(Error::new(Custom(format!("{}{}", f["tag"].as_str().unwrap_or(""), name)))),
        "io" => Err(Error::from(std::io::Error::new(
            if f["missing"] == true { std::io::ErrorKind::NotFound } else { std::io::ErrorKind::PermissionDenied },
            format!("io: {}{}", f["tag"].as_str().unwrap_or(""), name),
        ))),
        // what a compiler over these files says of the first
        "inner" => {
            let files = f["files"].clone();
            let mut c = Compiler::with_file_resolver(Fixed(files));
            Err(c.open_file(f["open"].as_str().unwrap()).map(|_| ()).expect_err("inner"))
        }
        k => panic!("kind {}", k),
    }
}

struct Fixed(Value);
impl FileResolver for Fixed {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match self.0[name].as_str() {
            Some(t) => File::from_source(name, t),
            None => Err(Error::file_not_found(name)),
        }
    }
}

impl FileResolver for Recorder {
    fn resolve_path(&self, path: &Path) -> Option<String> {
        let w = self.world.lock().unwrap();
        w.paths.get(path.to_str().unwrap()).cloned()
    }
    fn open_file(&self, name: &str) -> Result<File, Error> {
        let mut w = self.world.lock().unwrap();
        w.calls.push(if self.tag.is_empty() { json!(name) } else { json!([self.tag, name]) });
        let f = w.files.get(name).cloned().unwrap_or(json!({"kind": "nf"}));
        let r = match &w.base {
            Some(base) if f["kind"] == "disk" || f["kind"] == "nf" => File::open(name, &base.join(name)),
            _ => make(name, &f),
        };
        if let Ok(f) = &r {
            let sci = f.file_descriptor_proto().source_code_info.clone();
            w.loaded.insert(name.to_owned(), sci);
        }
        r
    }
}

pub fn error(e: &Error) -> Value {
    let mut v = diag(e);
    v["debug"] = format!("{:?}", e).into();
    v["file"] = e.file().into();
    v["nf"] = e.is_file_not_found().into();
    v["parse"] = e.is_parse().into();
    v["io"] = e.is_io().into();
    v["related"] = e.related().map(|r| r.count()).unwrap_or(0).into();
    v["help"] = e.help().map(|h| h.to_string()).into();
    // what the labels show
    v["shown"] = e
        .labels()
        .into_iter()
        .flatten()
        .map(|l| {
            e.source_code().and_then(|s| {
                s.read_span(l.inner(), 0, 0).ok().map(|c| json!([c.name(), String::from_utf8_lossy(c.data())]))
            })
        })
        .map(|x| x.unwrap_or(Value::Null))
        .collect::<Vec<_>>()
        .into();
    v
}

/// name, imports, messages with the types of their fields, presence of source info
fn brief(fd: &prost_types::FileDescriptorProto, loaded: &HashMap<String, Option<prost_types::SourceCodeInfo>>) -> Value {
    json!({
        "name": fd.name(),
        "dep": fd.dependency, "pub": fd.public_dependency, "weak": fd.weak_dependency,
        "syntax": fd.syntax,
        "msgs": fd.message_type.iter().map(|m| json!([m.name(), m.field.iter().map(|f| json!([f.name(), f.number(), f.type_name()])).collect::<Vec<_>>()])).collect::<Vec<_>>(),
        "exts": fd.extension.iter().map(|f| json!([f.name(), f.number(), f.extendee()])).collect::<Vec<_>>(),
        "sci": match (&fd.source_code_info, loaded.get(fd.name())) {
            (None, _) => "none",
            (Some(a), Some(Some(b))) if a == b => "same",
            _ => "other",
        },
    })
}

/// the fields of an encoded message: number and value (hex for length delimited)
pub fn raw(mut b: &[u8]) -> Result<Vec<(u32, Value)>, prost::DecodeError> {
    use prost::encoding::*;
    let mut out = vec![];
    while b.has_remaining() {
        let (n, w) = decode_key(&mut b)?;
        let v = match w {
            WireType::Varint => json!(decode_varint(&mut b)?),
            WireType::LengthDelimited => {
                let l = decode_varint(&mut b)? as usize;
                if l > b.len() {
                    return Err(prost::DecodeError::new("underflow"));
                }
                let (x, y) = b.split_at(l);
                b = y;
                json!(hex(x))
            }
            WireType::ThirtyTwoBit => json!(b.get_u32_le()),
            WireType::SixtyFourBit => json!(b.get_u64_le()),
            _ => {
                skip_field(w, n, &mut b, DecodeContext::default())?;
                json!("group")
            }
        };
        out.push((n, v));
    }
    Ok(out)
}

/// options of the file and of everything in it
pub fn raw_options(file: &[u8]) -> Value {
    fn walk(kind: &str, b: &[u8], o: &mut Vec<Value>) {
        let (opts, subs): (u64, &[(u64, &str)]) = match kind {
            "file" => (8, &[(4, "message"), (5, "enum"), (6, "service"), (7, "field")]),
            "message" => (7, &[(2, "field"), (3, "message"), (4, "enum"), (5, "range"), (6, "field"), (8, "oneof")]),
            "field" => (8, &[]),
            "oneof" => (2, &[]),
            "enum" => (3, &[(2, "value")]),
            "value" => (3, &[]),
            "service" => (3, &[(2, "method")]),
            "method" => (4, &[]),
            _ => (3, &[]),
        };
        for (n, v) in raw(b).unwrap() {
            let n = n as u64;
            if n == opts {
                o.extend(raw(&unhex(v.as_str().unwrap())).unwrap().into_iter().map(|(n, v)| json!([kind, n, v])));
            } else if let Some((_, k)) = subs.iter().find(|s| s.0 == n) {
                walk(k, &unhex(v.as_str().unwrap()), o);
            }
        }
    }
    let mut o = vec![];
    walk("file", file, &mut o);
    json!(o)
}

pub fn observe(c: &Compiler, loaded: &HashMap<String, Option<prost_types::SourceCodeInfo>>) -> Value {
    let files: Vec<Value> = c
        .files()
        .map(|m| json!([m.name(), m.is_import(), m.path().map(|p| p.to_string_lossy().into_owned())]))
        .collect();
    let set = c.file_descriptor_set();
    let enc = c.encode_file_descriptor_set();
    let dec = prost_types::FileDescriptorSet::decode(enc.as_slice());
    let pool = c.descriptor_pool();
    let mut poolfiles: Vec<Value> = vec![];
    for f in pool.files() {
        poolfiles.push(json!([
            f.name(),
            f.messages().map(|m| m.full_name().to_owned()).collect::<Vec<_>>(),
            f.dependencies().map(|d| d.name().to_owned()).collect::<Vec<_>>(),
        ]));
    }
    let exts = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut exts = vec![];
        for m in pool.all_messages() {
            for e in m.extensions() {
                exts.push(json!([m.full_name(), e.full_name(), e.number()]));
            }
        }
        json!(exts)
    }))
    .unwrap_or(json!("panic"));
    json!({
        "files": files,
        "count": c.files().len(),
        "fds": set.file.iter().map(|f| brief(f, loaded)).collect::<Vec<_>>(),
        "enc": match &dec { Ok(s) => json!(s.file.iter().map(|f| brief(f, loaded)).collect::<Vec<_>>()), Err(e) => json!(e.to_string()) },
        "opts": raw(&enc).map(|fs| fs.into_iter().map(|(n, v)| if n == 1 { raw_options(&unhex(v.as_str().unwrap())) } else { json!(n) }).collect::<Vec<_>>()).unwrap_or_default(),
        "same": dec.map(|d| d == set).unwrap_or(false),
        "pool": poolfiles,
        "exts": exts,
    })
}

pub fn hist(case: &Value) -> Value {
    let world = Arc::new(Mutex::new(World { base: case["base"].as_str().map(PathBuf::from), ..World::default() }));
    let rec = Recorder { world: world.clone(), tag: String::new() };
    let mut c = match case["boxed"].as_bool() {
        Some(true) => Compiler::with_file_resolver(Box::new(rec) as Box<dyn FileResolver>),
        _ => Compiler::with_file_resolver(rec),
    };
    let mut out = vec![];
    let mut kept = vec![];
    for op in case["ops"].as_array().unwrap() {
        let mut r = json!({});
        match op["op"].as_str().unwrap() {
            "set" => {
                world.lock().unwrap().set(op["name"].as_str().unwrap(), &op["file"]);
            }
            "path" => {
                world.lock().unwrap().paths.insert(op["path"].as_str().unwrap().to_owned(), op["name"].as_str().unwrap().to_owned());
            }
            "flags" => {
                c.include_imports(op["imports"].as_bool().unwrap()).include_source_info(op["sinfo"].as_bool().unwrap());
                r["done"] = true.into();
            }
            // a descriptor pool handed out must not be affected by later operations
            "keep" => kept.push((c.descriptor_pool(), c.descriptor_pool().files().map(|f| f.name().to_owned()).collect::<Vec<_>>())),
            "open" => {
                world.lock().unwrap().calls.clear();
                let res = if let Some(ps) = op["paths"].as_array() {
                    c.open_files(ps.iter().map(|p| p.as_str().unwrap())).map(|_| ())
                } else {
                    c.open_file(op["path"].as_str().unwrap()).map(|_| ())
                };
                r["res"] = match &res {
                    Ok(()) => Value::Null,
                    Err(e) => error(e),
                };
                r["calls"] = world.lock().unwrap().calls.clone().into();
            }
            o => panic!("op {}", o),
        }
        if op["op"] != "set" && op["op"] != "path" && op["op"] != "keep" {
            let loaded = world.lock().unwrap().loaded.clone();
            r["obs"] = observe(&c, &loaded);
            out.push(r);
        }
    }
    let stable = kept.iter().all(|(p, names)| p.files().map(|f| f.name().to_owned()).collect::<Vec<_>>() == *names);
    json!({"steps": out, "stable": stable})
}

fn build_resolver(v: &Value, world: &Arc<Mutex<World>>) -> Box<dyn FileResolver> {
    match v["r"].as_str().unwrap() {
        "chain" => {
            let mut c = ChainFileResolver::new();
            for x in v["of"].as_array().unwrap() {
                c.add(build_resolver(x, world));
            }
            Box::new(c)
        }
        "rec" => Box::new(Scripted { world: world.clone(), tag: v["tag"].as_str().unwrap().to_owned(), files: v["files"].clone(), paths: v["paths"].clone() }),
        "google" => Box::new(GoogleFileResolver::new()),
        "include" => Box::new(IncludeFileResolver::new(PathBuf::from(v["dir"].as_str().unwrap()))),
        "set" => {
            let b = unhex(v["hex"].as_str().unwrap());
            Box::new(match v["new"].as_bool() {
                Some(true) => DescriptorSetFileResolver::new(prost_types::FileDescriptorSet::decode(b.as_slice()).expect("set")),
                _ => DescriptorSetFileResolver::decode(b.as_slice()).expect("set"),
            })
        }
        r => panic!("resolver {}", r),
    }
}

/// a resolver with a fixed answer for each name and path, recording its calls under its tag
struct Scripted {
    world: Arc<Mutex<World>>,
    tag: String,
    files: Value,
    paths: Value,
}
impl FileResolver for Scripted {
    fn resolve_path(&self, path: &Path) -> Option<String> {
        self.world.lock().unwrap().calls.push(json!([self.tag, "path", path.to_str()]));
        self.paths[path.to_str().unwrap()].as_str().map(|s| s.to_owned())
    }
    fn open_file(&self, name: &str) -> Result<File, Error> {
        self.world.lock().unwrap().calls.push(json!([self.tag, "open", name]));
        make(name, &self.files[name])
    }
}

fn message_names(f: &prost_types::FileDescriptorProto) -> Vec<String> {
    f.message_type.iter().map(|m| m.name().to_owned()).collect()
}

/// queries to a chain of resolvers, directly and through a compiler
pub fn chain(case: &Value) -> Value {
    let world = Arc::new(Mutex::new(World::default()));
    let mut out = vec![];
    // a history asks one resolver several things
    let mut kept = case["keep"].as_bool().unwrap_or(false).then(|| build_resolver(&case["resolver"], &world));
    for q in case["queries"].as_array().unwrap() {
        let mut fresh = None;
        let slot = if kept.is_some() { &mut kept } else { &mut fresh };
        let r = slot.get_or_insert_with(|| build_resolver(&case["resolver"], &world));
        world.lock().unwrap().calls.clear();
        let arg = q["arg"].as_str().unwrap();
        let res = match q["q"].as_str().unwrap() {
            "path" => json!(r.resolve_path(Path::new(arg))),
            "open" => match r.open_file(arg) {
                Ok(f) => json!({"name": f.name(), "msgs": message_names(f.file_descriptor_proto())}),
                Err(e) => error(&e),
            },
            "compile" => {
                let mut c = Compiler::with_file_resolver(slot.take().unwrap());
                match c.open_file(arg).map(|_| ()) {
                    Ok(()) => {
                        let s = c.include_imports(true).file_descriptor_set();
                        json!({"files": s.file.iter().map(|f| json!([f.name(), message_names(f)])).collect::<Vec<_>>()})
                    }
                    Err(e) => error(&e),
                }
            }
            k => panic!("query {}", k),
        };
        let calls = world.lock().unwrap().calls.clone();
        out.push(json!({"res": res, "calls": calls}));
    }
    json!({ "answers": out })
}
