//! Test cases; every violation is stored as one of these and can be replayed.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Content {
    Missing,
    Text(String),
    /// Bytes that are not UTF-8.
    Binary,
    Dir,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FileSpec {
    pub stem: String,
    #[serde(default)]
    pub ext: Option<String>,
    pub tree: Content,
    pub sol: Content,
    /// The tree is given through a symbolic link to a file elsewhere.
    #[serde(default)]
    pub link: bool,
    /// How the path is written on the command line.
    #[serde(default)]
    pub prefix: String,
}

impl FileSpec {
    pub fn path(&self) -> String {
        match self.ext.as_deref() {
            // No extension.
            Some("") => self.stem.clone(),
            e => format!("{}.{}", self.stem, e.unwrap_or("tree")),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Case {
    /// One tree.
    Text(String),
    /// A string for the naming helpers.
    Str(String),
    /// A whole tree file.
    File(String),
    Scaf { text: String, version: String, skip: bool, no_mods: bool },
    Check { tree: Content, sol: Content, no_mods: bool },
    Fix { tree: String, sol: String, no_mods: bool },
    /// An invocation of the command line on a set of files.
    Cli { cmd: String, flags: Vec<String>, files: Vec<FileSpec> },
}

impl Case {
    /// Smaller variants, for shrinking.
    pub fn smaller(&self) -> Vec<Case> {
        fn texts(s: &str) -> Vec<String> {
            let mut out = vec![];
            let lines: Vec<&str> = s.split('\n').collect();
            if lines.len() > 1 && lines.len() < 400 {
                for i in 0..lines.len() {
                    let mut l = lines.clone();
                    l.remove(i);
                    out.push(l.join("\n"));
                }
            }
            let words: Vec<&str> = s.split(' ').collect();
            if words.len() > 1 && words.len() < 80 {
                for i in 0..words.len() {
                    let mut l = words.clone();
                    l.remove(i);
                    out.push(l.join(" "));
                }
            }
            let cs: Vec<char> = s.chars().collect();
            if cs.len() < 120 {
                for i in 0..cs.len() {
                    let mut l = cs.clone();
                    l.remove(i);
                    out.push(l.into_iter().collect());
                }
            }
            out
        }
        match self {
            Case::Text(s) => texts(s).into_iter().map(Case::Text).collect(),
            Case::Str(s) => texts(s).into_iter().map(Case::Str).collect(),
            Case::File(s) => texts(s).into_iter().map(Case::File).collect(),
            Case::Scaf { text, version, skip, no_mods } => texts(text)
                .into_iter()
                .map(|text| Case::Scaf {
                    text,
                    version: version.clone(),
                    skip: *skip,
                    no_mods: *no_mods,
                })
                .collect(),
            Case::Check { tree, sol, no_mods } => {
                let mut out = vec![];
                if let Content::Text(t) = tree {
                    for t in texts(t) {
                        out.push(Case::Check {
                            tree: Content::Text(t),
                            sol: sol.clone(),
                            no_mods: *no_mods,
                        });
                    }
                }
                if let Content::Text(t) = sol {
                    for t in texts(t) {
                        out.push(Case::Check {
                            tree: tree.clone(),
                            sol: Content::Text(t),
                            no_mods: *no_mods,
                        });
                    }
                }
                out
            }
            Case::Fix { tree, sol, no_mods } => {
                let mut out = vec![];
                for t in texts(tree) {
                    out.push(Case::Fix { tree: t, sol: sol.clone(), no_mods: *no_mods });
                }
                for t in texts(sol) {
                    out.push(Case::Fix { tree: tree.clone(), sol: t, no_mods: *no_mods });
                }
                out
            }
            Case::Cli { cmd, flags, files } => (0..files.len())
                .map(|i| {
                    let mut f = files.clone();
                    f.remove(i);
                    Case::Cli { cmd: cmd.clone(), flags: flags.clone(), files: f }
                })
                .collect(),
        }
    }
}
