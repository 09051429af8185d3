#![allow(dead_code)]
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::mode::Mode;
use lindera_core::LinderaResult;
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryKind, DictionaryLoader};
use lindera_tokenizer::tokenizer::Tokenizer;
use std::fs;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};

static N: AtomicUsize = AtomicUsize::new(0);

/// A fresh directory inside the scratch directory of this run.
pub fn dir() -> PathBuf {
    let d = PathBuf::from(std::env::var("SCRATCH").unwrap()).join(N.fetch_add(1, Ordering::SeqCst).to_string());
    fs::create_dir_all(&d).unwrap();
    d
}

pub const CHAR: &str = "DEFAULT 0 1 0\n";
pub const UNK: &str = "DEFAULT,0,0,5000,*,*,*,*,*,*\n";
pub const MATRIX: &str = "1 1\n0 0 0\n";

pub fn sources(words: &str, matrix: &str, chars: &str, unk: &str) -> PathBuf {
    let d = dir();
    fs::write(d.join("words.csv"), words).unwrap();
    fs::write(d.join("matrix.def"), matrix).unwrap();
    fs::write(d.join("char.def"), chars).unwrap();
    fs::write(d.join("unk.def"), unk).unwrap();
    d
}

/// Compile and load a UniDic-style dictionary (UTF-8, unk.def with 10 columns).
pub fn try_dict(words: &str, matrix: &str, chars: &str, unk: &str) -> LinderaResult<Dictionary> {
    let src = sources(words, matrix, chars, unk);
    let dst = dir();
    DictionaryBuilderResolver::resolve_builder(DictionaryKind::UniDic)?.build_dictionary(&src, &dst)?;
    DictionaryLoader::load_dictionary(dst)
}

pub fn dict(words: &str, matrix: &str, chars: &str, unk: &str) -> Dictionary {
    try_dict(words, matrix, chars, unk).expect("dictionary builds")
}

pub fn user(rows: &str) -> LinderaResult<UserDictionary> {
    let p = dir().join("user.csv");
    fs::write(&p, rows).unwrap();
    DictionaryLoader::load_user_dictionary_from_csv(DictionaryKind::UniDic, p)
}

pub fn tokenizer(words: &str, matrix: &str, chars: &str, unk: &str) -> Tokenizer {
    Tokenizer::new(dict(words, matrix, chars, unk), None, Mode::Normal)
}

pub fn surfaces(t: &Tokenizer, text: &str) -> Vec<String> {
    t.tokenize(text).unwrap().iter().map(|x| x.text.to_string()).collect()
}
