// Packs the tiny stand-in library in acornlib/ beside this file.
use flate2::{Compression, GzBuilder};
use std::{env, fs, path::PathBuf};

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=acornlib");
    let root = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap()).join("acornlib");
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let path = out.join("acornlib.tar.gz");
    {
        let enc = GzBuilder::new().mtime(0).write(fs::File::create(&path).unwrap(), Compression::default());
        let mut ar = tar::Builder::new(enc);
        let mut files: Vec<PathBuf> = vec!["acorn.toml".into()];
        let mut stack = vec![PathBuf::from("src")];
        while let Some(d) = stack.pop() {
            for e in fs::read_dir(root.join(&d)).unwrap() {
                let e = e.unwrap();
                let rel = d.join(e.file_name());
                if e.file_type().unwrap().is_dir() { stack.push(rel) } else { files.push(rel) }
            }
        }
        files.sort();
        for f in files {
            let data = fs::read(root.join(&f)).unwrap();
            let mut h = tar::Header::new_gnu();
            h.set_size(data.len() as u64);
            h.set_mode(0o644);
            h.set_mtime(0);
            h.set_cksum();
            ar.append_data(&mut h, &f, &data[..]).unwrap();
        }
        ar.into_inner().unwrap().finish().unwrap();
    }
    let hash = blake3::hash(&fs::read(&path).unwrap()).to_hex().to_string();
    fs::write(out.join("acornlib.tar.gz.blake3"), format!("{hash}\n")).unwrap();
}
