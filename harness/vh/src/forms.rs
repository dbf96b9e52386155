//! the same files supplied in different forms
use crate::comp::error;
use crate::dump;
use bytes::Buf;
use prost::Message;
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use protox::file::{DescriptorSetFileResolver, File, FileResolver, GoogleFileResolver};
use protox::{Compiler, Error};
use serde_json::{json, Value};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

pub const FORMS: [&str; 7] = ["source", "disk", "desc", "from", "bytes", "set", "setbytes"];

struct Supply {
    base: PathBuf,
    texts: Value,
    forms: Value,
    log: Arc<Mutex<(Vec<String>, Vec<Value>)>>,
}

/// the file as the model says it is obtained
fn supply(base: &std::path::Path, form: &str, name: &str, text: &str) -> Result<File, Error> {
    let fd = || protox_parse::parse(name, text).expect("text for a descriptor");
    let other = || FileDescriptorProto { name: Some("other".into()), ..Default::default() };
    match form {
        "source" => File::from_source(name, text),
        "disk" => {
            let p = base.join(name);
            std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
            std::fs::write(&p, text).expect("write");
            File::open(name, &p)
        }
        "desc" => Ok(File::from_file_descriptor_proto(fd())),
        "from" => Ok(File::from(FileDescriptorProto::from(File::from_source(name, text)?))),
        "bytes" => {
            // in pieces: a buffer need not be contiguous
            let b = fd().encode_to_vec();
            let (x, y) = b.split_at(b.len() / 3);
            let (y, z) = y.split_at(y.len() / 2);
            Ok(File::decode_file_descriptor_proto(x.chain(y).chain(z)).expect("decode"))
        }
        "set" => DescriptorSetFileResolver::new(FileDescriptorSet { file: vec![other(), fd(), other()] }).open_file(name),
        "setbytes" => {
            let b = FileDescriptorSet { file: vec![other(), fd(), other()] }.encode_to_vec();
            DescriptorSetFileResolver::decode(b.as_slice()).expect("decode").open_file(name)
        }
        f => panic!("form {}", f),
    }
}

impl FileResolver for Supply {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        let Some(text) = self.texts[name].as_str() else { return GoogleFileResolver::new().open_file(name) };
        let mut log = self.log.lock().unwrap();
        log.0.push(name.to_owned());
        let f = supply(&self.base, self.forms[name].as_str().unwrap(), name, text)?;
        let path = f.path().map(|p| p == self.base.join(name));
        let source = f.source().map(|s| s == text);
        let same = Ok(f.file_descriptor_proto()) == protox_parse::parse(name, text).as_ref().map_err(|_| ())
            && FileDescriptorProto::from(f.clone()) == *f.file_descriptor_proto();
        log.1.push(json!([name, f.name(), path, source, same]));
        Ok(f)
    }
}

fn hash(s: &impl Hash) -> String {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    format!("{:x}", h.finish())
}

fn one(base: &std::path::Path, texts: &Value, forms: &Value, opens: &Value) -> Value {
    let log = Arc::new(Mutex::new(Default::default()));
    let mut c = Compiler::with_file_resolver(Supply { base: base.to_owned(), texts: texts.clone(), forms: forms.clone(), log: log.clone() });
    let mut steps = vec![];
    for n in opens.as_array().unwrap() {
        *log.lock().unwrap() = Default::default();
        let res = c.open_file(n.as_str().unwrap()).map(|_| ()).map_err(|e| error(&e)).err();
        let (calls, acc) = log.lock().unwrap().clone();
        let files: Vec<Value> = c.files().map(|f| json!([f.name(), f.is_import(), f.path().map(|p| p == base.join(f.name()))])).collect();
        let (mut outs, mut flags) = (vec![], vec![]);
        for (imports, info) in [(true, true), (true, false), (false, true), (false, false)] {
            c.include_imports(imports).include_source_info(info);
            let set = c.file_descriptor_set();
            let enc = c.encode_file_descriptor_set();
            let sel: Vec<Value> = set.file.iter().map(|f| json!([f.name(), f.source_code_info.is_some()])).collect();
            // the pool knows all of each file
            let all = c.descriptor_pool();
            let kept = set.file.iter().all(|f| all.get_file_by_name(f.name()).is_some_and(|g| FileDescriptorProto { source_code_info: g.file_descriptor_proto().source_code_info.clone().filter(|_| info), ..g.file_descriptor_proto().clone() } == *f));
            flags.push(json!([sel, FileDescriptorSet::decode(enc.as_slice()).as_ref() == Ok(&set), kept]));
            outs.push(json!([hash(&set.file.iter().map(|f| dump::file(f).to_string()).collect::<Vec<_>>()), hash(&enc)]));
        }
        let pool = c.descriptor_pool();
        let in_pool: Vec<&str> = pool.file_descriptor_protos().map(|f| f.name()).collect();
        steps.push(json!({"res": res, "calls": calls, "acc": acc, "files": files, "outs": outs, "flags": flags, "pool": in_pool}));
    }
    json!(steps)
}

pub fn forms(case: &Value) -> Value {
    let base = PathBuf::from(case["base"].as_str().unwrap());
    if case["all"] == true {
        let all: Vec<Value> = FORMS
            .iter()
            .map(|f| {
                let forms: Value = case["texts"].as_object().unwrap().keys().map(|n| (n.clone(), json!(f))).collect::<serde_json::Map<_, _>>().into();
                one(&base, &case["texts"], &forms, &case["opens"])
            })
            .collect();
        return json!({ "all": all });
    }
    json!({"steps": one(&base, &case["texts"], &case["forms"], &case["opens"])})
}
