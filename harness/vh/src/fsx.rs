//! the file system side: paths and include directories, and the ways in which a file can fail to be obtained
use crate::comp::{error, make};
use protox::file::{ChainFileResolver, DescriptorSetFileResolver, File, FileResolver, IncludeFileResolver};
use protox::{Compiler, Error};
use serde_json::{json, Value};
use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};

/// U+0001 stands for a byte that is not UTF-8
fn pb(v: &Value) -> PathBuf {
    let b = v.as_str().unwrap().bytes().map(|b| if b == 1 { 0xff } else { b }).collect();
    PathBuf::from(OsString::from_vec(b))
}
fn lossy(p: &Path) -> String {
    p.to_string_lossy().into_owned()
}
fn res(r: Result<(), Error>) -> Value {
    match r {
        Ok(()) => Value::Null,
        Err(e) => error(&e),
    }
}

pub fn paths(case: &Value) -> Value {
    std::env::set_current_dir(pb(&case["cwd"])).expect("cwd");
    let incs: Vec<PathBuf> = case["incs"].as_array().unwrap().iter().map(pb).collect();
    let opens: Vec<PathBuf> = case["opens"].as_array().unwrap().iter().map(pb).collect();
    let mut c = Compiler::new(&incs).expect("new");
    let mut out = vec![];
    for p in &opens {
        let r = res(c.open_file(p).map(|_| ()));
        let fds: std::collections::HashMap<String, String> = {
            c.include_imports(true);
            c.file_descriptor_set().file.into_iter().map(|f| (f.name().to_owned(), f.package().to_owned())).collect()
        };
        let files: Vec<Value> = c.files().map(|m| json!([m.name(), m.is_import(), m.path().map(lossy), fds[m.name()]])).collect();
        let names: Vec<Value> = incs.iter().map(|i| json!(IncludeFileResolver::new(i.clone()).resolve_path(p))).collect();
        let direct: Vec<Value> = match p.to_str() {
            None => vec![],
            Some(n) => incs
                .iter()
                .map(|i| match IncludeFileResolver::new(i.clone()).open_file(n) {
                    Ok(f) => json!({"name": f.name(), "path": f.path().map(lossy), "marker": f.file_descriptor_proto().package(),
                                    "source": f.source().map(|s| s.len()) == f.path().and_then(|p| fs::metadata(p).ok()).map(|m| m.len() as usize)}),
                    Err(e) => error(&e),
                })
                .collect(),
        };
        out.push(json!({"res": r, "files": files, "names": names, "direct": direct}));
    }
    let whole = match protox::compile(&opens, &incs) {
        Ok(s) => json!(s.file.iter().map(|f| json!([f.name(), f.package(), f.source_code_info.is_some()])).collect::<Vec<_>>()),
        Err(e) => json!(format!("{:?}", e)),
    };
    json!({"opens": out, "compile": whole})
}

/// makes root/dir/name be in the given state; root is a directory of this case only
fn put(dir: &Path, name: &str, st: &str, tag: &str) {
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir).unwrap();
    let p = dir.join(name);
    let parent = p.parent().unwrap();
    if st == "notdir" && parent != dir {
        return fs::write(parent, "syntax = 'proto3';").unwrap();
    }
    if st == "noparent" {
        return;
    }
    fs::create_dir_all(parent).unwrap();
    match st {
        "missing" => {}
        "ok" | "changed" => fs::write(&p, format!("syntax = 'proto3'; package {}{};", st, tag)).unwrap(),
        "empty" => fs::write(&p, "").unwrap(),
        "dangling" => symlink(dir.join("nowhere"), &p).unwrap(),
        "loop" => symlink(&p, &p).unwrap(),
        "linked" => {
            let target = dir.join("target of a link");
            fs::write(&target, format!("syntax = 'proto3'; package {}{};", st, tag)).unwrap();
            symlink(target, &p).unwrap()
        }
        // a file which has content and a length of 0
        "unsized" => symlink("/proc/version", &p).unwrap(),
        "dir" => fs::create_dir(&p).unwrap(),
        "socket" => drop(std::os::unix::net::UnixListener::bind(&p).unwrap()),
        "syntax" => fs::write(&p, format!("package {}; message {{", tag)).unwrap(),
        "utf8" => fs::write(&p, b"package a; // \xff\n").unwrap(),
        "utf8end" => fs::write(&p, b"package a; // \xe2\x82").unwrap(),
        "utf8long" => {
            let mut b = b"package a; // ".to_vec();
            b.resize(70000, b'x');
            b.extend(b"\xc0\x80\n");
            fs::write(&p, b).unwrap()
        }
        "large" => fs::File::create(&p).unwrap().set_len(1 << 31).unwrap(),
        "noaccess" => {
            fs::write(&p, "").unwrap();
            fs::set_permissions(&p, fs::Permissions::from_mode(0)).unwrap();
        }
        s => panic!("state {}", s),
    }
}

fn got(r: Result<File, Error>) -> Value {
    match r {
        Ok(f) => json!({"marker": f.file_descriptor_proto().package(), "name": f.name(), "path": f.path().map(lossy)}),
        Err(e) => error(&e),
    }
}

struct Nothing;
impl FileResolver for Nothing {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        make(name, &json!({"kind": "nf"}))
    }
}

pub fn disk(case: &Value) -> Value {
    let root = pb(&case["root"]);
    fs::create_dir_all(&root).unwrap();
    let name = case["name"].as_str().unwrap();
    let (a, b, c) = (root.join("A"), root.join("B"), root.join("C"));
    fs::create_dir_all(&c).unwrap();
    put(&a, if case["odd"] == true { "f" } else { name }, case["disk"]["A"].as_str().unwrap(), "A");
    put(&b, if case["odd"] == true { "f" } else { name }, case["disk"]["B"].as_str().unwrap(), "B");
    let mut comp = Compiler::new([&c, &a, &b]).expect("new");
    comp.include_imports(true);
    let imp: String = name.bytes().map(|b| if b == 0 { "\\000".to_owned() } else { (b as char).to_string() }).collect();
    let found = |comp: &Compiler| {
        comp.file_descriptor_set().file.iter().find(|f| f.name() == name).map(|f| json!({"marker": f.package()})).unwrap_or(json!("absent"))
    };
    let mut out = vec![];
    for (i, op) in case["ops"].as_array().unwrap().iter().enumerate() {
        if op["op"] == "change" {
            let d = op["dir"].as_str().unwrap();
            put(&root.join(d), name, op["to"].as_str().unwrap(), d);
            continue;
        }
        out.push(match op["route"].as_str().unwrap() {
            "file" => got(File::open("label.proto", &a.join(name))),
            "include" => got(IncludeFileResolver::new(a.clone()).open_file(name)),
            "chain" => {
                let mut ch = ChainFileResolver::new();
                ch.add(Nothing);
                ch.add(IncludeFileResolver::new(a.clone()));
                ch.add(IncludeFileResolver::new(b.clone()));
                got(ch.open_file(name))
            }
            "root" => match comp.open_file(name).map(|_| ()) {
                Ok(()) => found(&comp),
                Err(e) => error(&e),
            },
            "import" => {
                fs::write(c.join(format!("r{}.proto", i)), format!("import 'google/protobuf/empty.proto'; import '{}';", imp)).unwrap();
                match comp.open_file(format!("r{}.proto", i)).map(|_| ()) {
                    Ok(()) => found(&comp),
                    Err(e) => error(&e),
                }
            }
            "deep" => {
                fs::write(c.join(format!("m{}.proto", i)), format!("import '{}';", imp)).unwrap();
                fs::write(c.join(format!("r{}.proto", i)), format!("import 'm{}.proto';", i)).unwrap();
                match comp.open_file(c.join(format!("r{}.proto", i))).map(|_| ()) {
                    Ok(()) => found(&comp),
                    Err(e) => error(&e),
                }
            }
            "setimport" => {
                let fd = prost_types::FileDescriptorProto {
                    name: Some("s.proto".to_owned()),
                    dependency: vec![name.to_owned()],
                    ..Default::default()
                };
                let mut ch = ChainFileResolver::new();
                ch.add(DescriptorSetFileResolver::new(prost_types::FileDescriptorSet { file: vec![fd] }));
                ch.add(IncludeFileResolver::new(a.clone()));
                ch.add(IncludeFileResolver::new(b.clone()));
                let mut comp = Compiler::with_file_resolver(ch);
                comp.include_imports(true);
                match comp.open_file("s.proto").map(|_| ()) {
                    Ok(()) => found(&comp),
                    Err(e) => error(&e),
                }
            }
            r => panic!("route {}", r),
        });
    }
    for d in [&a, &b, &c] {
        let _ = fs::remove_dir_all(d);
    }
    let _ = fs::remove_dir(&root);
    json!({ "answers": out })
}

/// a text of the given length: good ones end in a declaration, bad ones are wrong from the start
pub fn size(case: &Value) -> Value {
    let root = pb(&case["root"]);
    let _ = fs::remove_dir_all(&root);
    fs::create_dir_all(&root).unwrap();
    let n = case["size"].as_u64().unwrap() as usize;
    let good = case["content"] == "good";
    let (head, tail) = if good { ("message A {} /*", "*/ message Z {}") } else { ("syntax = 1;\n", "") };
    let p = root.join("l.proto");
    let text = || head.to_owned() + &"x".repeat(n - head.len() - tail.len()) + tail;
    let route = case["route"].as_str().unwrap();
    if route == "pipe" {
        assert!(std::process::Command::new("mkfifo").arg(&p).status().unwrap().success());
        let p = p.clone();
        let head = if good { text() } else { head.to_owned() };
        // the reader may leave before the end
        std::thread::spawn(move || {
            use std::io::Write;
            let mut f = fs::OpenOptions::new().write(true).open(p)?;
            f.write_all(head.as_bytes())?;
            let fill = vec![0; 1 << 20];
            let mut left = n - head.len();
            while left > 0 {
                let k = left.min(fill.len());
                f.write_all(&fill[..k])?;
                left -= k;
            }
            std::io::Result::Ok(())
        });
    } else if !["parse", "source"].contains(&route) {
        fs::write(&p, if good { text() } else { head.to_owned() }).unwrap();
        fs::OpenOptions::new().write(true).open(&p).unwrap().set_len(n as u64).unwrap();
    }
    let brief = |f: &prost_types::FileDescriptorProto| f.message_type.iter().map(|m| m.name().to_owned()).collect::<Vec<_>>();
    let file = |r: Result<File, Error>| match r {
        Ok(f) => json!({"msgs": brief(f.file_descriptor_proto()), "len": f.source().map(str::len)}),
        Err(e) => error(&e),
    };
    let r = match route {
        "parse" => match protox_parse::parse("l.proto", &text()) {
            Ok(f) => json!({"msgs": brief(&f), "len": n}),
            Err(e) => error(&Error::from(e)),
        },
        "source" => file(File::from_source("l.proto", &text())),
        "open" | "pipe" => file(File::open("l.proto", &p)),
        "include" => file(IncludeFileResolver::new(root.clone()).open_file("l.proto")),
        "root" | "import" => {
            fs::write(root.join("r.proto"), "import 'l.proto';").unwrap();
            let mut c = Compiler::new([&root]).unwrap();
            match c.include_imports(true).open_file(if route == "root" { "l.proto" } else { "r.proto" }).map(|_| ()) {
                Ok(()) => json!({"msgs": brief(&c.file_descriptor_set().file[0]), "len": n}),
                Err(e) => error(&e),
            }
        }
        r => panic!("route {}", r),
    };
    let _ = fs::remove_dir_all(&root);
    r
}
