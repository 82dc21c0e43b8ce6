//! Case generators: bounded-exhaustive families first, then seeded random.
use crate::case::*;
use crate::reffoundry::*;
use crate::refsyn;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T {
        v[self.below(v.len())]
    }
    /// One of `v`, or a word of the dictionary.
    pub fn word(&mut self, v: &[&str]) -> String {
        if !dict().0.is_empty() && self.chance(1, 6) {
            return dict().0[self.below(dict().0.len())].clone();
        }
        self.pick(v).to_owned()
    }
    /// A size around a number of the dictionary, or else `n`.
    pub fn size(&mut self, n: usize, max: usize) -> usize {
        if !dict().1.is_empty() && self.chance(1, 12) {
            let k = dict().1[self.below(dict().1.len())] + self.below(4);
            let k = k.saturating_sub(1).max(1);
            if k <= max {
                return k;
            }
        }
        n
    }
}

/// The literals of the sources under test that the tree this was built for does not have (tools/check.py):
/// whatever depends on one of them is reached sooner with it.
pub fn dict() -> &'static (Vec<String>, Vec<usize>) {
    static D: std::sync::OnceLock<(Vec<String>, Vec<usize>)> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        std::env::var("VH_DICT").ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default()
    })
}

type It = Box<dyn Iterator<Item = Case> + Send>;

// ------------------------------------------------------------ lexical texts

const FRAGS: &[&str] = &[
    " ", "\n", "\t", "\r", "├", "└", "─", "│", "//", "/", "when", "GIVEN", "it", "x", "a-b", "é",
    "'", "@", "\u{a0}", "// c\n", "İt", "日", "\u{2028}", "\u{b}", "𐌰", ":",
];
const LEX_TEMPLATES: &[(&str, &str)] = &[
    ("", ""),
    ("Foo\n└── when x", "\n  └── it y"),
    ("Foo\n├── when a b ", " c\n│  └── it y\n└── it z"),
    ("Foo\n└── it y ", " w\n  └── d ee"),
    ("Foo // c", "\n└── it é y"),
    ("Foo\n└── ", " b\n   └── it y\n"),
];

fn sequences(frags: &'static [&'static str], len: usize) -> impl Iterator<Item = String> {
    let n = frags.len().pow(len as u32);
    (0..n).map(move |mut k| {
        let mut s = String::new();
        for _ in 0..len {
            s.push_str(frags[k % frags.len()]);
            k /= frags.len();
        }
        s
    })
}

fn lexical(seed: u64, random: usize, deep: bool) -> It {
    let ex = LEX_TEMPLATES.iter().flat_map(move |(a, b)| {
        (0..=if deep { 4 } else { 3 })
            .flat_map(|l| sequences(FRAGS, l))
            .map(move |s| Case::Text(format!("{a}{s}{b}")))
    });
    let rnd = (0..random).map(move |i| {
        let mut r = Rng(seed ^ (i as u64).wrapping_mul(0x51ed));
        let mut s = String::new();
        if r.chance(3, 4) {
            s.push_str("Foo ");
        }
        for _ in 0..r.below(30) {
            if r.chance(1, 6) {
                s.push_str(r.pick(&["└── when ", "\n├ given ", "\n   └── it ", "├", "\n// c d\n"]));
            }
            s.push_str(&r.word(FRAGS));
            if r.chance(1, 2) {
                s.push(' ');
            }
        }
        Case::Text(s)
    });
    let trees = (0..random).map(move |i| {
        let mut r = Rng(seed ^ 0x77 ^ (i as u64).wrapping_mul(0x9137));
        let t = Tr::random(&mut r);
        let mut s = t.draw(&mut r, "Foo");
        for _ in 0..r.below(4) {
            s = mutate(&s, &mut r, FRAGS);
        }
        Case::Text(s)
    });
    let uni = all_chars();
    Box::new(ex.chain(trees).chain(rnd).chain(uni))
}

/// Every character that could be special, in word positions of every kind.
fn all_chars() -> impl Iterator<Item = Case> + Send {
    (0u32..0x3100)
        .chain(0xfe00..0xff10)
        .chain(0x1_0300..0x1_0340)
        .chain(0x1_f5f0..0x1_f650)
        .filter_map(char::from_u32).flat_map(|c| {
        [
            format!("Foo\n└── when a{c} b\n   └── it c{c} d"),
            format!("Foo\n└── when a {c}\n   └── it {c} d"),
            format!("F{c}oo\n└── it {c}it\n   └── a{c}{c} d"),
            format!("Foo\n└── {c}when b\n   └── it d"),
            format!("Foo\n└── it a\n   └── it{c} d"),
            format!("Foo\n└── it a when{c} b\n   └── {c}given"),
            format!("Foo\n└── when{c} b\n   └── it d"),
        ]
        .map(Case::Text)
    })
}

fn mutate(s: &str, r: &mut Rng, frags: &[&str]) -> String {
    let mut cs: Vec<String> = s.chars().map(|c| c.to_string()).collect();
    let i = r.below(cs.len() + 1);
    match r.below(4) {
        0 if i < cs.len() => {
            cs.remove(i);
        }
        1 if i < cs.len() => cs[i] = r.word(frags),
        _ => cs.insert(i, r.word(frags)),
    }
    cs.concat()
}

// -------------------------------------------------------------------- trees

/// A random drawn tree.
pub enum Tr {
    Cond(String, Vec<Tr>),
    Act(String, Vec<String>),
}
pub struct Forest(pub Vec<Tr>);

const CWORDS: &[&str] = &[
    "a", "b", "owner", "a-b", "it's", "\"q\"", "é", "X9", "foo_bar", "--", "1st", "the", "Zed",
    "it", "when", "given", "It", "WHEN", "Given", "ünï", "ß", "ǆx", "_", "'", "test_x", "'test_y'", "msgSender", "o2",
];
const AWORDS: &[&str] = &[
    "should", "revert", "revert.", "Revert", "do", "x", "\"quoted\"", "\\", "/*", "*/", "`code`",
    "$1", "\";", "日本", "it", "when", "When", "GIVEN", "It", "given,", "a-b", "emit", "{", "}", "don't", "é", "test_", "//c",
    "5%", "__bulloak_comment__", "given", "x─y", "(a,b)", ";",
    "it:", "when,", "𝒳", "(it)", "\"test_b\"", ":test_", "test_test_",
];

fn words(r: &mut Rng, pool: &[&str], min: usize, max: usize) -> String {
    let n = min + r.below(max - min + 1);
    let n = r.size(n, 64);
    let mut ws: Vec<String> = (0..n).map(|_| r.word(pool)).collect();
    if n > 1 && r.chance(1, 12) {
        // One word of two.
        let w = ws.pop().unwrap();
        ws.last_mut().unwrap().push_str(&w);
    }
    ws.join(" ")
}

/// Titles that are related: with a long common start, or hardly different from an earlier one.
struct Kin {
    pre: String,
    seen: Vec<String>,
    /// How many children an ordinary node has, at most, and how many nodes there may be.
    wide: usize,
    left: usize,
}
impl Kin {
    fn new(r: &mut Rng) -> Kin {
        let pre = if r.chance(1, 15) {
            let n = 5 + r.below(60);
            "long ".repeat(r.size(n, 2000))
        } else {
            String::new()
        };
        let wide = if r.chance(1, 10) { 14 } else { 3 };
        Kin { pre, seen: vec![], wide, left: 400 }
    }
    fn title(&mut self, r: &mut Rng, t: String) -> String {
        let t = if !self.seen.is_empty() && r.chance(1, 7) {
            let mut cs: Vec<char> = self.seen[r.below(self.seen.len())].chars().collect();
            let i = r.below(cs.len());
            match r.below(5) {
                0 | 1 => {
                    // The other case of the last letter.
                    let (k, c) = cs.iter().enumerate().rev().find(|(_, c)| c.is_ascii_alphabetic()).map(|(k, c)| (k, *c)).unwrap_or((0, cs[0]));
                    cs[k] = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                }
                2 => cs.push('_'),
                3 => cs.insert(i, cs[i]),
                _ => cs.extend(" x".chars()),
            }
            cs.into_iter().collect()
        } else {
            format!("{}{t}", self.pre)
        };
        self.seen.push(t.clone());
        t
    }
}

impl Tr {
    #[allow(clippy::new_ret_no_self)]
    pub fn random(r: &mut Rng) -> Forest {
        let depth = 1 + r.below(4);
        let depth = r.size(depth, 12);
        let mut id = 0;
        let tame = r.chance(1, 2);
        let mut kin = Kin::new(r);
        Forest(Self::kids(r, depth, &mut id, tame, true, &mut kin))
    }
    pub fn tame(r: &mut Rng) -> Forest {
        let depth = 1 + r.below(4);
        let depth = r.size(depth, 12);
        let mut id = 0;
        let mut kin = Kin::new(r);
        Forest(Self::kids(r, depth, &mut id, true, true, &mut kin))
    }
    fn kids(r: &mut Rng, depth: usize, id: &mut usize, tame: bool, top: bool, kin: &mut Kin) -> Vec<Tr> {
        let n = if tame || !r.chance(1, 12) { 1 + r.below(kin.wide) } else { 0 };
        let n = r.size(n, 300).min(kin.left.max(1));
        kin.left = kin.left.saturating_sub(n);
        (0..n)
            .map(|_| {
                *id += 1;
                if depth == 0 || r.chance(2, 5) {
                    let kw = r.pick(&["it", "it", "It", "IT"]);
                    let t = if r.chance(1, 3) {
                        r.pick(&["should revert", "should revert.", "SHOULD REVERT", "should revert now", "should-revert", "should  revert!"])
                            .to_owned()
                    } else {
                        words(r, AWORDS, usize::from(tame), 4)
                    };
                    // Unique top-level names keep a tame tree acceptable.
                    let t = if tame && top { kin.title(r, format!("{t} u{id}")) } else { t };
                    let d = if r.chance(1, 3) {
                        (0..1 + r.below(3)).map(|_| words(r, AWORDS, 1, 4)).collect()
                    } else {
                        vec![]
                    };
                    Tr::Act(format!("{kw} {t}"), d)
                } else {
                    let kw = r.pick(&["when", "given", "When", "GIVEN"]);
                    let mut t = words(r, CWORDS, usize::from(tame), 4);
                    if tame {
                        t = kin.title(r, format!("{t} c{id}"));
                    }
                    Tr::Cond(format!("{kw} {t}"), Self::kids(r, depth.saturating_sub(1), id, tame, false, kin))
                }
            })
            .collect()
    }
}
impl Forest {
    pub fn draw(&self, r: &mut Rng, root: &str) -> String {
        let style = Style {
            bar: r.chance(2, 3),
            dash: r.below(3),
            step: 1 + r.below(4),
            comments: r.chance(1, 4),
            tee_nested: r.chance(1, 5),
        };
        let mut s = root.to_owned();
        style.kids(&self.0, "", &mut s, r, true);
        if r.chance(1, 4) {
            s.push('\n');
        }
        s
    }
}
struct Style {
    bar: bool,
    dash: usize,
    step: usize,
    comments: bool,
    tee_nested: bool,
}
impl Style {
    fn branch(&self, last: bool, top: bool, r: &mut Rng) -> &'static str {
        if !top && self.tee_nested && r.chance(1, 2) {
            return "├";
        }
        if last {
            "└"
        } else {
            "├"
        }
    }
    fn line(&self, pre: &str, br: &str, t: &str, s: &mut String, r: &mut Rng) {
        if self.comments && r.chance(1, 4) {
            s.push_str("\n// a comment └ ├ when");
        }
        s.push('\n');
        s.push_str(pre);
        s.push_str(br);
        for _ in 0..self.dash {
            s.push('─');
        }
        s.push(' ');
        s.push_str(t);
        if self.comments && r.chance(1, 4) {
            s.push_str(" // trailing @");
        }
    }
    fn inner(&self, pre: &str, last: bool) -> String {
        let mut p = pre.to_owned();
        p.push(if self.bar && !last { '│' } else { ' ' });
        for _ in 1..self.step {
            p.push(' ');
        }
        p
    }
    fn kids(&self, k: &[Tr], pre: &str, s: &mut String, r: &mut Rng, top: bool) {
        for (i, t) in k.iter().enumerate() {
            let last = i + 1 == k.len();
            let br = self.branch(last, top, r);
            match t {
                Tr::Act(t, d) => {
                    self.line(pre, br, t, s, r);
                    let p = self.inner(pre, last);
                    let mut deep = p.clone();
                    for (j, x) in d.iter().enumerate() {
                        let b = if j + 1 == d.len() { "└" } else { "├" };
                        if r.chance(1, 5) {
                            deep.push(' ');
                        }
                        self.line(&deep, b, x, s, r);
                    }
                }
                Tr::Cond(t, ch) => {
                    self.line(pre, br, t, s, r);
                    self.kids(ch, &self.inner(pre, last), s, r, false);
                }
            }
        }
    }
}

/// Every tree text of up to `n` lines over a small set of lines.
fn small_lines(n: usize) -> It {
    const W: &[&str] = &["when a", "given b", "it c", "it should revert", "when", "x y", ""];
    let mut opts: Vec<String> = vec![];
    for ind in [0usize, 1, 3] {
        for br in ["├", "└", ""] {
            for w in W {
                opts.push(format!("{}{br} {w}", " ".repeat(ind)));
            }
        }
    }
    let m = opts.len();
    Box::new((0..=n).flat_map(move |len| {
        let opts = opts.clone();
        (0..m.pow(len as u32)).map(move |mut k| {
            let mut s = "Foo".to_owned();
            for _ in 0..len {
                s.push('\n');
                s.push_str(&opts[k % m]);
                k /= m;
            }
            Case::Text(s)
        })
    }))
}

/// Few but large trees: more siblings, levels or letters than any small case has.
fn large() -> It {
    let mut out = vec![];
    for n in [31usize, 63, 127, 128, 129, 254, 255, 256, 257, 300, 511, 513, 1030] {
        // Many actions below one condition, and at the top.
        let acts = |pre: &str| {
            (0..n)
                .map(|i| format!("{pre}{} it a{i}", if i + 1 == n { "└──" } else { "├──" }))
                .collect::<Vec<_>>()
                .join("\n")
        };
        out.push(format!("Foo\n├── when b\n{}\n└── it c", acts("│   ")));
        out.push(format!("Foo\n{}", acts("")));
        // Many conditions, with one action each.
        let conds = (0..n)
            .map(|i| {
                let (b, p) = if i + 1 == n { ("└──", " ") } else { ("├──", "│") };
                format!("{b} when c{i}\n{p}   └── it d")
            })
            .collect::<Vec<_>>()
            .join("\n");
        out.push(format!("Foo\n{conds}"));
        // Many descriptions below one action.
        let descs = (0..n)
            .map(|i| format!("    {} d{i}", if i + 1 == n { "└──" } else { "├──" }))
            .collect::<Vec<_>>()
            .join("\n");
        out.push(format!("Foo\n└── it a\n{descs}"));
        // A long title.
        out.push(format!("Foo\n├── when {}\n│   └── it {}\n└── it c", "long ".repeat(n), "x".repeat(n)));
        if n < 300 {
            // Many levels.
            let mut s = "Foo".to_owned();
            for i in 0..n {
                s.push_str(&format!("\n{}└── when l{i}", "    ".repeat(i)));
            }
            s.push_str(&format!("\n{}└── it a", "    ".repeat(n)));
            out.push(s);
        }
    }
    Box::new(out.into_iter().map(Case::Text))
}

/// Files that are larger than any random one: many trees, functions or files' worth of titles.
fn large_files() -> Vec<String> {
    let mut out = vec![];
    for c in large() {
        if let Case::Text(t) = c {
            if t.len() < 12_000 {
                out.push(t);
            }
        }
    }
    for n in [17usize, 65, 129, 257] {
        let t: Vec<String> = (0..n).map(|i| format!("Foo::f{i}\n├── it a\n└── when b{}\n    └── when c\n        └── it d", i % 9)).collect();
        out.push(t.join("\n\n"));
        let sep = ["\n\n", "\n\n\n", "\n\n// c\n\n", "\n\n \n\n"];
        let t: String = (0..n).map(|i| format!("Foo::f{i}\n└── it a{}", sep[i % 4])).collect();
        out.push(t);
    }
    out
}

/// Texts with a line, a number of lines or a size beyond 16 bits.
fn huge() -> It {
    let n = 65_600;
    let mut out = vec![];
    out.push(format!("Foo\n└── when a{} b@ c\n    └── it d", " ".repeat(n)));
    out.push(format!("Foo\n├── it {}\n└── when b é\n    └── it d", "x y ".repeat(n / 4)));
    out.push(format!("Foo\n└── it a{} b\n    └── when", " ".repeat(n)));
    out.push(format!("Foo{}└── when a b@ c\n    └── it d", "\n".repeat(n)));
    out.push(format!("Foo\n{}├── it é b\n└── when c d\n    └── it e\n├── it f", "// é\n".repeat(n)));
    out.push(format!("Foo\n├── it a{}\n└── when", "\n".repeat(n)));
    Box::new(out.into_iter().map(Case::Text))
}

/// Solidity files beyond 16 bits: in lines, in characters and in bytes.
fn huge_sol() -> Vec<(String, String)> {
    let n = 65_600;
    let tree = "Foo\n├── it a\n├── it b\n└── it c".to_owned();
    let all = "function test_C() external {}\nfunction test_A() external {\n x();\n}\n";
    vec![
        (tree.clone(), format!("pragma solidity 0.8.0;\n{}contract Bar {{\n{all}}}\n", "\n".repeat(n))),
        (tree.clone(), format!("contract Foo {{\n{}{all}}}\n", "\n".repeat(n))),
        (tree.clone(), format!("contract Foo {{\nfunction x() public {{\n// {}\n}}\n{all}}}\n", "x é".repeat(n / 4))),
        (tree, format!("contract Foo {{\n{all}}}\n// {}\n", "é".repeat(n))),
    ]
}

/// Words that are nearly a keyword, in every position of a word.
fn near_keywords() -> It {
    const ODD: &[char] = &['ı', 'İ', 'ſ', 'K', 'í', 'ⅰ', 'ｉ', 'Ｗ', 'ŵ', 'é', 'ɢ', 'ň', 'т', '1', '\u{301}', '\u{200b}', '\u{ad}', '-', '\'', '.', ':', ',', 'x'];
    let mut words: Vec<String> = vec![];
    for k in ["it", "when", "given", "IT", "When", "gIVEN"] {
        let c: Vec<char> = k.chars().collect();
        for i in 0..=c.len() {
            for o in ODD {
                let mut a = c.clone();
                a.insert(i, *o);
                words.push(a.iter().collect());
                if i < c.len() {
                    let mut b = c.clone();
                    b[i] = *o;
                    words.push(b.iter().collect());
                }
            }
            if i < c.len() {
                let mut b = c.clone();
                b.remove(i);
                words.push(b.iter().collect());
                words.push(format!("{k}{}", c[i]));
            }
        }
        for p in ["if", "only", "ever", "en"] {
            words.push(format!("{k}{p}"));
        }
    }
    let out: Vec<Case> = words
        .iter()
        .flat_map(|w| {
            [
                format!("Foo\n└── {w} a"),
                format!("Foo\n└── {w} a\n    └── it b"),
                format!("Foo\n└── {w} a.\n    └── it b"),
                format!("Foo\n└── it {w} a.\n    └── {w} b."),
                format!("Foo\n└── when {w} a\n    └── it {w}"),
                format!("{w}\n└── it a"),
                format!("Foo\n├── when\n│   └── it a\n└── {w}"),
            ]
        })
        .map(Case::Text)
        .collect();
    Box::new(out.into_iter())
}

/// Trees with many problems of each kind, or one with many places.
fn many_problems() -> It {
    let mut out = vec![];
    for n in [3usize, 5, 9, 10, 11, 17, 33, 65, 101, 129, 257] {
        let tree = |f: &dyn Fn(usize) -> String| {
            let l: Vec<String> = (0..n).map(|i| format!("{}── {}", if i + 1 == n { "└" } else { "├" }, f(i))).collect();
            format!("Foo\n{}", l.join("\n"))
        };
        out.push(tree(&|_| "it a".into()));
        out.push(tree(&|i| format!("it a{}", i / 2)));
        out.push(tree(&|i| format!("it a{}", (i * 7) % (n / 2 + 1))));
        out.push(tree(&|i| format!("when b{i}")));
        out.push(tree(&|i| format!("when b{}", i / 2)));
        out.push(tree(&|i| format!("{} b{}\n    └── it c", if i % 2 == 0 { "when" } else { "WHEN" }, i / 2)));
    }
    Box::new(out.into_iter().map(Case::Text))
}

/// Branch-only shapes: every assignment of columns and kinds to up to `n`
/// nodes with distinct titles.
fn shapes(n: usize) -> It {
    let opts: Vec<(usize, &str, &str)> = [0usize, 2, 4]
        .iter()
        .flat_map(|c| ["├", "└"].iter().map(move |b| (*c, *b)))
        .flat_map(|(c, b)| ["when", "it", "d"].iter().map(move |k| (c, b, *k)))
        .collect();
    let m = opts.len();
    Box::new((1..=n).flat_map(move |len| {
        let opts = opts.clone();
        (0..m.pow(len as u32)).map(move |mut k| {
            let mut s = "Foo".to_owned();
            for i in 0..len {
                let (c, b, w) = opts[k % m];
                s.push_str(&format!("\n{}{b} {w} n{i}", " ".repeat(c)));
                k /= m;
            }
            Case::Text(s)
        })
    }))
}

fn random_trees(seed: u64, n: usize, mutated: bool) -> It {
    Box::new((0..n).map(move |i| {
        let mut r = Rng(seed ^ 0xabcd ^ (i as u64).wrapping_mul(0xd1b5));
        let f = if mutated { Tr::random(&mut r) } else { Tr::tame(&mut r) };
        let mut s = f.draw(&mut r, "Foo");
        if mutated {
            for _ in 0..r.below(3) {
                s = mutate(&s, &mut r, &["├", "└", " ", "\n", "when ", "it ", "given a ", "w ", "│"]);
            }
        }
        Case::Text(s)
    }))
}

fn semantic(seed: u64, n: usize) -> It {
    // Titles that clash after normalisation.
    const T: &[&str] = &["a b", "a-b", "aB", "a  b", "A b", "a_b", "ab", "a 'b'", "é", "É", "c", "d"];
    Box::new((0..n).map(move |i| {
        let mut r = Rng(seed ^ 0x5e3a ^ (i as u64).wrapping_mul(0xd1b5));
        fn go(r: &mut Rng, ind: usize, depth: usize, s: &mut String, last_top: bool) {
            let n = if r.chance(1, 8) { 0 } else { 1 + r.below(4) };
            for k in 0..n {
                let br = if last_top && k + 1 == n { "└" } else { "├" };
                let pad = " ".repeat(ind);
                if depth == 0 || r.chance(2, 5) {
                    s.push_str(&format!("\n{pad}{br} it {}", r.pick(T)));
                } else {
                    let kw = r.pick(&["when", "given", "When"]);
                    s.push_str(&format!("\n{pad}{br} {kw} {}", r.pick(T)));
                    go(r, ind + 2, depth - 1, s, false);
                }
            }
        }
        let mut s = "Foo".to_owned();
        let d = r.below(4);
        go(&mut r, 0, d, &mut s, true);
        Case::Text(s)
    }))
}

// -------------------------------------------------------------------- files

const ROOTS: &[&str] = &[
    "Foo::bar", "Foo::baz", "Foo::Bar", "Foo::bar", "Foo::a::b", "Foo::", "Foo", "::bar", "Bar::x",
    "foo::bar", "Foo::é", "Foo::test_x", "Foo:bar", "Foo-::x", "Foo::_y",
];
fn file(r: &mut Rng, good: bool) -> String {
    let n = 1 + r.below(3);
    let n = r.size(n, 40);
    let mut parts = vec![];
    for i in 0..n {
        let root = if good && !dict().0.is_empty() && r.chance(1, 4) {
            format!("Foo::{}", r.word(ROOTS).replace(char::is_whitespace, ""))
        } else if good {
            format!("Foo::f{}", if r.chance(1, 5) { 0 } else { i })
        } else {
            r.pick(ROOTS).to_owned()
        };
        let root = if n == 1 && r.chance(2, 3) { "Foo".to_owned() } else { root };
        let f = Tr::tame(r);
        parts.push(f.draw(r, &root));
    }
    let mut s = String::new();
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            s.push_str(r.pick(&["\n\n", "\n\n", "\n\n\n", "\n\n\n\n"]));
            if !dict().0.is_empty() && r.chance(1, 10) {
                s.push_str(&r.word(&["\n"]));
            }
            if r.chance(1, 8) {
                s.push_str("// only a comment\n  // another\n\n");
            }
        }
        s.push_str(p);
    }
    s
}
/// Trees that share a pool of titles, so that merging meets duplicates.
fn sharing(r: &mut Rng) -> String {
    let n = 2 + r.below(3);
    let mut s = vec![];
    for _ in 0..n {
        let root = if r.chance(9, 10) {
            format!("Foo::{}", r.pick(&["bar", "baz", "Bar", "test_x", "", "bar", "a::b"]))
        } else {
            r.pick(ROOTS).to_owned()
        };
        let mut t = root;
        let k = 1 + r.below(3);
        let mut used: Vec<&str> = vec![];
        for j in 0..k {
            let br = if j + 1 == k { "└" } else { "├" };
            let title = r.pick(&["when a", "when b", "given c", "when test_ d", "it do x", "it test_ y"]);
            if used.contains(&title) {
                continue;
            }
            used.push(title);
            // The last one must close the tree.
            t.push_str(&format!("\n{br} {title}"));
            if !title.starts_with("it") {
                if r.chance(1, 2) {
                    t.push_str(&format!("\n  ├ it {}", r.pick(&["should revert", "e"])));
                }
                t.push_str(&format!("\n  └ when {} {j}\n    └ it g", r.pick(&["m", "n"])));
            }
        }
        if t.rsplit('\n').find(|l| l.starts_with('├') || l.starts_with('└')).is_some_and(|l| l.starts_with('├')) {
            let i = t.rfind("\n├").unwrap();
            t.replace_range(i..i + "\n├".len(), "\n└");
        }
        s.push(t);
    }
    s.join("\n\n")
}

fn files(seed: u64, n: usize) -> It {
    Box::new((0..n).map(move |i| {
        let mut r = Rng(seed ^ 0xf11e ^ (i as u64).wrapping_mul(0xd1b5));
        Case::File(match i % 4 {
            0 => file(&mut r, true),
            1 => file(&mut r, false),
            2 => sharing(&mut r),
            _ => {
                let f = file(&mut r, true);
                if r.chance(1, 3) {
                    mutate(&f, &mut r, &["\n\n", "::", "\n", " "])
                } else {
                    f
                }
            }
        })
    }))
}

fn split_texts(seed: u64, n: usize) -> It {
    const F: &[&str] = &[
        "\n", "\n\n", "\n\n\n", " ", "\t", "//c", "// c\n", "Foo", "Foo\n└ it a", "Bar\n└ when b\n  └ it c",
        "x//", "\r\n", "\u{a0}", "\r\n\r\n", "\u{2003}\n",
    ];
    // A part that is only one of these, or starts or ends with it, is not left out or cut.
    const ODD: &[&str] = &[
        "\u{feff}", "─", "│", "├", "└", "#", "/", "*", "'", "\"", "-", "_", "@", ":", ".", ",", ";", "`", "\\", "{", "}",
        "(", "é", "\u{200b}", "\u{0}", "1", "//", "///", "/*", "*/", "\u{c}", "\u{b}", "\u{85}", "\u{2028}",
    ];
    let ex = (0..=4).flat_map(|l| sequences(F, l)).map(Case::File);
    let rnd = (0..n).map(move |i| {
        let mut r = Rng(seed ^ 0x5b1 ^ (i as u64).wrapping_mul(0xd1b5));
        let mut s = String::new();
        for _ in 0..r.below(12) {
            s.push_str(&if r.chance(1, 4) { r.pick(ODD).to_owned() } else { r.word(F) });
        }
        Case::File(s)
    });
    Box::new(ex.chain(rnd).chain(files(seed, n / 4)))
}

fn scaf(seed: u64, n: usize) -> It {
    const NAMES: &[&str] = &[
        "Foo", "Foo_Test", "foo.sol", "Foo-Bar", "contract", "123", "Foo::bar", "é", "$x", "_", "uint",
        "Foo::bar-baz", "Foo::1", "@", "Foo::x.y", "FooBarBazQuxVeryLongContractNameThatGoesOnAndOnAndOnForever",
    ];
    const VERS: &[&str] = &["0.8.0", "^0.8.13", ">=0.8.0", "0.7.6", "=0.8.4", "~0.8.1", ">=0.8.0 <0.9.0", "^0.7.0 || ^0.8.0", "0.7.0 - 0.8.0", "0.8.x", "*"];
    Box::new((0..n).map(move |i| {
        let mut r = Rng(seed ^ 0x5caf ^ (i as u64).wrapping_mul(0xd1b5));
        let text = match r.below(4) {
            0 => {
                let f = Tr::tame(&mut r);
                let name = r.pick(NAMES);
                f.draw(&mut r, name)
            }
            1 => {
                let a = Tr::tame(&mut r);
                let b = Tr::tame(&mut r);
                let n1 = r.pick(NAMES);
                let n2 = r.pick(&["Foo::b", "Foo::c", "Foo::bar-baz", "Foo::9", "contract::x"]);
                format!("{}\n\n{}", a.draw(&mut r, n1), b.draw(&mut r, n2))
            }
            2 => r.pick(&["", "// c", "//a\n//b\n\n// c", "Foo", " \n "]).to_owned(),
            _ => file(&mut r, true),
        };
        Case::Scaf {
            text,
            version: r.pick(VERS).to_owned(),
            skip: r.chance(1, 2),
            no_mods: r.chance(1, 3),
        }
    }))
}

// ----------------------------------------------------------------- Solidity

/// The plan of a tree text, through the reference pipeline only.
pub fn plan(text: &str) -> Option<Plan> {
    let mut plans = vec![];
    for p in refsyn::split(text) {
        let t = refsyn::lex(&p).and_then(|t| refsyn::parse(&t)).ok()?;
        if !refsyn::semantics(&t).is_empty() {
            return None;
        }
        plans.push(plan_one(&t));
    }
    combine(plans).ok()
}

fn body(r: &mut Rng) -> String {
    let n = r.below(3);
    let n = r.size(n, 60);
    let mut r2 = Rng(r.next());
    (0..n)
        .map(|_| {
            r.pick(&[
                "uint256 x = 1;",
                "// inside é\n",
                "foo(a, \"} {\");",
                "if (a) {\n b();\n}",
                "emit E(1);",
                "/* block } */",
                "vm.expectRevert();",
                "string memory s = unicode\"é\";",
                "xFoo(); Foo2(); _Foo();",
                "Old(a).b(); gOld(OldBase(x));",
                "mOther.fOther(); // Other",
                "// a\r// b\rc();",
                "assert(\u{c}true);",
            ])
            .to_owned()
        })
        .map(|s| if dict().0.is_empty() { s } else { format!("// {}\n{s}", r2.word(&["x"]).replace(['\n', '\r'], " ")) })
        .collect::<Vec<_>>()
        .join("\n")
}

pub fn solidity(tree: &str, r: &mut Rng, fixable: bool) -> String {
    let p = plan(tree).unwrap_or(Plan { name: "Foo".into(), funs: vec![] });
    let mut parts: Vec<String> = vec![];
    let style = r.below(6);
    for f in &p.funs {
        if style > 1 && r.chance(1, 4) {
            continue;
        }
        let src = if f.modifier {
            format!("modifier{}{}() {{\n {}\n _;\n}}", if style > 1 { r.pick(&[" ", " ", " ", "\n\n "]) } else { " " }, f.name, body(r))
        } else {
            match r.below(if style > 1 { 12 } else { 1 }) {
                // Declared only, in another order, or with more to its header.
                1 => format!("function {}() external;", f.name),
                2 => format!("function {}() external virtual {};", f.name, f.mods.join(" ")),
                3 => format!("function {}(uint256 a) public view virtual {} returns (uint256) {{\n{}\n}}", f.name, f.mods.join(" "), body(r)),
                5 => format!("function\n // é name:\n{}\n() external {} {{\n{}\n}}", f.name, f.mods.join(" "), body(r)),
                4 => format!("function /* ; */ {}\n() external {}\n{{\n{}\n}}", f.name, f.mods.join(" "), body(r)),
                _ => format!("function {}() external {} {{\n{}\n}}", f.name, f.mods.join(" "), body(r)),
            }
        };
        let src = if style > 2 && r.chance(1, 12) {
            let other = match r.below(4) {
                0 => f.name.to_uppercase(),
                1 => format!("{}_", f.name),
                2 => format!("_{}", f.name),
                _ => format!("{}{}", f.name, r.word(&["X"]).replace(|c: char| !c.is_ascii_alphanumeric(), "_")),
            };
            src.replacen(&f.name, &other, 1)
        } else {
            src
        };
        parts.push(src.clone());
        if !fixable && style > 3 && r.chance(1, 12) {
            parts.push(src);
        }
        if style > 3 && r.chance(1, 12) {
            // Same name, other kind.
            let _ = &parts;
            if f.modifier {
                parts.push(format!("function {}(uint256 a) public {{}}", f.name));
            } else if !fixable {
                parts.push(format!("modifier {}(uint256 a) {{ _; }}", f.name));
            }
        }
    }
    if style > 0 && r.chance(2, 3) {
        match r.below(4) {
            0 => parts.reverse(),
            1 => {
                for i in (1..parts.len()).rev() {
                    let j = r.below(i + 1);
                    parts.swap(i, j);
                }
            }
            2 if parts.len() > 1 => {
                let i = r.below(parts.len());
                let x = parts.remove(i);
                let j = r.below(parts.len() + 1);
                parts.insert(j, x);
            }
            _ => {}
        }
    }
    const EXTRA: &[&str] = &[
        "uint256 internal counter;",
        "address public owner = address(0);",
        "struct S {\n uint256 a;\n}",
        "event E(uint256 a);",
        "error Bad();",
        "enum Kind { A, B }",
        "constructor() {\n counter = 1;\n}",
        "receive() external payable {}",
        "fallback() external {}",
        "using L for uint256;",
        "function setUp() public virtual {\n // é setup\n}",
        "function helper(uint256 a) internal pure returns (uint256) {\n return a;\n}",
        "modifier other() {\n _;\n}",
        "// a lone comment é",
        "/// natspec\nfunction doc() public {}",
        "/* block { comment */",
        "mapping(address => uint256) internal m;",
        "bool constant OK = true;",
        "type T is uint256;",
        "function later(uint256 a) external virtual;",
        "modifier lazy() virtual;",
        "/*/ odd } */",
        "function quoted() public pure returns (bytes memory) {\n return hex\"7d\" hex'7b' \"\\\"}\" '}\\'';\n}",
    ];
    for _ in 0..if style == 0 { 0 } else { r.below(4) } {
        let i = r.below(parts.len() + 1);
        let e = r.pick(EXTRA).to_owned();
        if !parts.contains(&e) {
            parts.insert(i, e);
        }
    }
    let real = refsyn::sanitize(&p.name);
    let name = if style > 2 && r.chance(1, 4) {
        match r.below(4) {
            // Hardly another name.
            0 => real.to_uppercase(),
            1 => format!("{real}_"),
            _ => r.pick(&["Old", "Fo", "Foo2", "Other", "contractX"]).to_owned(),
        }
    } else {
        real
    };
    let pre = r
        .pick(&[
            "",
            "pragma solidity 0.8.0;\n",
            "// SPDX-License-Identifier: UNLICENSED\npragma solidity 0.8.0;\n\nimport {Test} from \"forge-std/Test.sol\";\n",
            "// é ünï 日本\n// contract Old {\npragma solidity ^0.8.0;\n",
            "/* 日本語 contract Foo */\n",
            "function free() pure {}\n",
            "struct Top {\n uint256 a;\n}\n",
        ])
        .to_owned();
    let pre = if !fixable && r.chance(1, 10) {
        format!("{pre}{}\n", r.pick(&["interface I {}", "library L {}", "abstract contract Base {}"]))
    } else {
        pre
    };
    let base = r.pick(&["", "", "", " is OldBase", " is Base, contractBase", " is Test", " is X, Y(P({a: 1}))", " is Y(P({a: 1})), X", " is X, /* { */ Y(1, P({a: 1, b: 2})) /* { */", " /* { */", " // {\n", " /*/ { */", " /**/", " /***{***/", " // x\r", " // {\r\n", " // a\r/* { */ // b\r"]);
    let post = r.pick(&[
        "\ncontract Third {\n function a() public {\n fOld(); Foo2 x; OldX(); new Old();\n }\n}\n",
        "", "\n", "\ncontract Second {\n function a() public {}\n}\n", "\ncontract OldBase {}\n", "\n// end é"]);
    let sep = r.pick(&["\n\n", "\n", "\n\n// between é\n"]);
    let mut s = format!("{pre}contract{}{name}{base} {{\n{}\n}}{post}", r.pick(&[" ", " ", " ", "\n\n"]), parts.join(sep));
    if !fixable && r.chance(1, 15) {
        s = match r.below(4) {
            0 => s.replace("contract", "contrac"),
            1 => String::new(),
            2 => "pragma solidity 0.8.0;\n".into(),
            _ => s.replace(" {", ""),
        };
    }
    if r.chance(1, 12) {
        s = s.replace("\r\n", "\n").replace('\n', "\r\n");
    }
    s
}

pub fn tree_for_sol(r: &mut Rng) -> String {
    let t = lf_tree_for_sol(r);
    if !t.contains("\n\n") && r.chance(1, 12) {
        return t.replace('\n', "\r\n");
    }
    t
}
fn lf_tree_for_sol(r: &mut Rng) -> String {
    match r.below(6) {
        0 => file(r, true),
        1 => sharing(r),
        2 => "Foo\n├── it a\n├── when b\n│  ├── it c\n│  └── when d\n│     └── it e\n└── it f".into(),
        _ => {
            let f = Tr::tame(r);
            f.draw(r, "Foo")
        }
    }
}

fn checks(seed: u64, n: usize) -> It {
    let fixed = [
        (Content::Missing, Content::Missing),
        (Content::Dir, Content::Missing),
        (Content::Binary, Content::Missing),
        (Content::Text("Foo\n└ it a".into()), Content::Missing),
        (Content::Text("Foo\n└ it a".into()), Content::Dir),
        (Content::Text("Foo\n└ it a".into()), Content::Binary),
        (Content::Text("Foo\n└ it".into()), Content::Text(String::new())),
        (Content::Text("Foo\n└ when a".into()), Content::Text("contract Foo {}".into())),
        (Content::Text("Foo".into()), Content::Text("contract Foo {}".into())),
        (Content::Text("Foo\n└ when a@".into()), Content::Text("contract Foo {}".into())),
        (Content::Text("Foo\n└ it a\n\nFoo\n└ it b".into()), Content::Text("contract Foo {}".into())),
        (Content::Text("Foo\n└ it a".into()), Content::Text("contract".into())),
    ]
    .into_iter()
    .flat_map(|(t, s)| {
        [false, true].map(|no_mods| Case::Check { tree: t.clone(), sol: s.clone(), no_mods })
    });
    let huge = huge_sol().into_iter().map(|(t, s)| Case::Check {
        tree: Content::Text(t),
        sol: Content::Text(s),
        no_mods: false,
    });
    let small = small_checks().map(|(t, s, no_mods)| Case::Check {
        tree: Content::Text(t),
        sol: Content::Text(s),
        no_mods,
    });
    Box::new(fixed.chain(huge).chain(small).chain((0..n).map(move |i| {
        let mut r = Rng(seed ^ 0xc4ec ^ (i as u64).wrapping_mul(0xd1b5));
        let tree = tree_for_sol(&mut r);
        let sol = solidity(&tree, &mut r, false);
        Case::Check { tree: Content::Text(tree), sol: Content::Text(sol), no_mods: r.chance(1, 3) }
    })))
}

/// Every arrangement (with omissions and one extra function) of the four
/// functions of one tree.
fn small_checks() -> impl Iterator<Item = (String, String, bool)> + Send {
    let tree = "Foo\n├ it a\n└ when b\n  ├ it c\n  └ when d\n    └ it e";
    const F: [&str; 5] = [
        "function test_A() external {}",
        "modifier whenB() { _; }",
        "function test_WhenB() external whenB {}",
        "function test_WhenD() external whenB {}",
        "function extra() public {}",
    ];
    let mut out = vec![];
    let mut perm: Vec<Vec<usize>> = vec![vec![]];
    let mut done = vec![];
    while let Some(p) = perm.pop() {
        for i in 0..5 {
            if !p.contains(&i) {
                let mut q = p.clone();
                q.push(i);
                perm.push(q);
            }
        }
        done.push(p);
    }
    done.sort_by_key(|p| (p.len(), p.clone()));
    for p in done {
        let b: Vec<&str> = p.iter().map(|i| F[*i]).collect();
        for m in [false, true] {
            out.push((tree.to_owned(), format!("contract Foo {{\n{}\n}}\n", b.join("\n")), m));
        }
    }
    out.into_iter()
}

fn fixes(seed: u64, n: usize) -> It {
    let step = if n > 2000 { 1 } else { 2 };
    let small = small_checks()
        .enumerate()
        .filter(move |(i, _)| (*i as u64 + seed) % step == 0)
        .map(|(_, (tree, sol, no_mods))| Case::Fix { tree, sol, no_mods });
    // Nearly everything is missing, so that there is much to fix.
    let much = [40usize, 70, 104, 136, 260, 300].into_iter().map(move |n| {
        let mut r = Rng(seed ^ 0xf2f2 ^ n as u64);
        let n = r.size(n, 320);
        let t: Vec<String> = (0..n).map(|i| format!("{}── it a{i}", if i + 1 == n { "└" } else { "├" })).collect();
        let some: String = (0..n).filter(|_| r.chance(1, 8)).map(|i| format!("    function test_A{i}() external {{}}\n")).collect();
        Case::Fix {
            tree: format!("Foo\n{}", t.join("\n")),
            sol: format!("pragma solidity 0.8.0;\ncontract Foo {{\n{some}}}\n"),
            no_mods: false,
        }
    });
    let huge = huge_sol().into_iter().map(|(tree, sol)| Case::Fix { tree, sol, no_mods: false });
    Box::new(small.chain(much).chain(huge).chain((0..n).map(move |i| {
        let mut r = Rng(seed ^ 0xf1f1 ^ (i as u64).wrapping_mul(0xd1b5));
        let tree = tree_for_sol(&mut r);
        let sol = solidity(&tree, &mut r, true);
        Case::Fix { tree, sol, no_mods: r.chance(1, 3) }
    })))
}

// -------------------------------------------------------------- invocations

fn batch(seed: u64, n: usize, scaffold: bool) -> It {
    const GOOD: &[&str] = &[
        "Foo\n└── it a",
        "Foo\n├── when b\n│  ├── it c\n│  └── when d\n│     └── it e\n└── it f",
        "Foo::f\n└── it a\n\nFoo::g\n└── when x\n   └── it should revert",
    ];
    const BAD: &[&str] = &[
        "",
        "Foo",
        "Foo\n└── when a",
        "Foo\n└── when a@b\n   └── it c",
        "Foo\n├── it a",
        "Foo\n└── it a\n\nFoo\n└── it b",
        "contract\n└── it a",
        "Foo\n├── it a\n└── it a",
        "Foo::x\n└── it a\n\nBar::y\n└── it b",
    ];
    // Many files in one invocation, and one beyond 16 bits.
    let spec = |j: usize, tree: &str, sol: Content| FileSpec {
        stem: format!("f{j}"),
        ext: None,
        tree: Content::Text(tree.into()),
        sol,
        link: false,
        prefix: String::new(),
    };
    let mut fixed = vec![];
    for n in [40usize, 70, 260] {
        let good = "Foo\n└── it a";
        let sol = || Content::Text("contract Foo {\nfunction test_A() external {}\n}\n".into());
        let bare = || Content::Text("contract Foo {}\n".into());
        let last_bad: Vec<FileSpec> = (0..n)
            .map(|j| if j + 1 == n { spec(j, "Foo", bare()) } else { spec(j, good, if scaffold { Content::Missing } else { sol() }) })
            .collect();
        let all_bad: Vec<FileSpec> = (0..n).map(|j| spec(j, if scaffold { "Foo" } else { good }, if scaffold { Content::Missing } else { bare() })).collect();
        let flags: &[&[&str]] = if scaffold { &[&["-w"], &[]] } else { &[&[], &["--fix"]] };
        for files in [last_bad, all_bad] {
            for f in flags {
                fixed.push(Case::Cli {
                    cmd: if scaffold { "scaffold" } else { "check" }.into(),
                    flags: f.iter().map(|s| s.to_string()).collect(),
                    files: files.clone(),
                });
            }
        }
    }
    {
        let n = 33;
        let t: Vec<String> =
            (0..n).map(|i| format!("{}── it a{i} {}", if i + 1 == n { "└" } else { "├" }, "y".repeat(2000))).collect();
        let t = format!("Foo\n{}", t.join("\n"));
        let flags: &[&[&str]] = if scaffold { &[&["-w"], &[]] } else { &[&[], &["--fix"]] };
        for f in flags {
            fixed.push(Case::Cli {
                cmd: if scaffold { "scaffold" } else { "check" }.into(),
                flags: f.iter().map(|s| s.to_string()).collect(),
                files: vec![spec(0, &t, if scaffold { Content::Missing } else { Content::Text("contract Foo {}\n".into()) })],
            });
        }
    }
    Box::new(fixed.into_iter().chain((0..n).map(move |i| {
        let mut r = Rng(seed ^ 0xba7c ^ (i as u64).wrapping_mul(0xd1b5));
        let k = if r.chance(1, 20) { 5 + r.below(14) } else { 1 + r.below(4) };
        let k = r.size(k, 40);
        let mut files = vec![];
        let all_good = r.chance(1, 3);
        let big = r.chance(1, 12);
        for j in 0..k {
            let good = all_good || r.chance(2, 3);
            let tree = if good && (if big { r.chance(1, 2) } else { r.chance(1, 4) }) {
                Content::Text(if big {
                    // Many functions.
                    let n = r.pick(&[&17usize, &34, &70, &104, &130, &260]);
                    let n = r.size(*n, 300);
                    let t: Vec<String> =
                        (0..n).map(|i| format!("{}── it a{i}", if i + 1 == n { "└" } else { "├" })).collect();
                    format!("Foo\n{}", t.join("\n"))
                } else {
                    let f = Tr::tame(&mut r);
                    f.draw(&mut r, "Foo")
                })
            } else if good {
                Content::Text(r.pick(GOOD).to_owned())
            } else {
                match r.below(6) {
                    0 => Content::Missing,
                    1 => Content::Binary,
                    2 => Content::Dir,
                    _ => Content::Text(r.pick(BAD).to_owned()),
                }
            };
            let sol = match (r.below(if all_good && !scaffold { 3 } else { 8 }), &tree) {
                (0, _) if scaffold || !all_good => Content::Missing,
                (7, _) => Content::Dir,
                (6, _) => Content::Binary,
                (5, _) => Content::Text("contract {".into()),
                (4, _) => Content::Text("contract Foo {}\n".into()),
                (_, Content::Text(t)) if r.chance(3, 4) => {
                    if all_good {
                        // Exactly what the tree asks for.
                        let p = plan(t);
                        Content::Text(
                            p.map(|p| {
                                let b: Vec<String> = p
                                    .funs
                                    .iter()
                                    .map(|f| {
                                        if f.modifier {
                                            format!("modifier {}() {{ _; }}", f.name)
                                        } else {
                                            format!("function {}() external {{}}", f.name)
                                        }
                                    })
                                    .collect();
                                format!("contract {} {{\n{}\n}}\n", p.name, b.join("\n"))
                            })
                            .unwrap_or_default(),
                        )
                    } else {
                        Content::Text(solidity(t, &mut r, true))
                    }
                }
                _ => Content::Missing,
            };
            let sol = match sol {
                Content::Missing if r.chance(1, 6) => Content::Text(r.pick(&["", "\n", "// nothing yet\n"]).to_owned()),
                x => x,
            };
            let stem = match r.below(8) {
                0 => format!("f{j}.v1"),
                1 => format!("sub/f{j}"),
                2 => format!("a.b/F {j}"),
                3 => format!("d{}/e é/f{j}", r.below(2)),
                4 if !dict().0.is_empty() => {
                    let w = r.word(&["x"]);
                    format!("f{j}{}", w.replace(|c: char| c == '/' || c.is_control(), "."))
                }
                _ => format!("f{j}"),
            };
            let mut sol = sol;
            let mut stem = stem;
            let mut ext = match r.below(16) {
                0 | 1 => Some("txt".to_owned()),
                // None at all.
                2 if !stem.rsplit('/').next().unwrap().contains('.') => Some(String::new()),
                _ => None,
            };
            if !scaffold && r.chance(1, 6) {
                // Another spec for the Solidity file of an earlier one.
                if let Some(f) = files.first() {
                    let f: &FileSpec = f;
                    stem = f.stem.clone();
                    sol = f.sol.clone();
                    ext = Some(format!("spec{j}"));
                }
            }
            if r.chance(1, 10) {
                // A path that is not UTF-8.
                stem.push('\u{FFFD}');
            }
            let link = r.chance(1, 10);
            let prefix = if r.chance(1, 8) { r.pick(&["./", "././", ".//", "up/../", "/"]).to_owned() } else { String::new() };
            files.push(FileSpec {
                stem,
                ext,
                tree,
                sol,
                link,
                prefix,
            });
            if r.chance(1, 20) {
                // The same one again.
                let again = files[r.below(files.len())].clone();
                files.push(again);
            }
        }
        let mut flags: Vec<String> = vec![];
        let mut cmd = "scaffold";
        if scaffold {
            if r.chance(2, 3) {
                flags.push("-w".into());
                if r.chance(1, 2) {
                    flags.push("-f".into());
                }
            }
            if r.chance(1, 4) {
                flags.push("-S".into());
            }
            if r.chance(1, 4) {
                flags.push("-m".into());
            }
            if r.chance(1, 5) {
                flags.push("-s".into());
                flags.push("0.7.6".into());
            }
        } else {
            cmd = "check";
            let shared = files.iter().any(|f| f.ext.as_ref().is_some_and(|e| e.starts_with("spec")));
            if !shared && r.chance(1, 2) {
                flags.push("--fix".into());
                if r.chance(1, 2) {
                    flags.push("--stdout".into());
                }
            }
            if r.chance(1, 4) {
                flags.push("-m".into());
            }
        }
        Case::Cli { cmd: cmd.into(), flags, files }
    })))
}

fn strings(seed: u64, n: usize) -> It {
    const F: &[&str] = &["a", "B", " ", "-", "é", "ß", "ǆ", "\t", "_", "'", "1", "日", ".", "\u{a0}", "İ", "\u{301}", "ﬁ", "\n", "$"];
    let ex = (0..=4).flat_map(|l| sequences(F, l)).map(Case::Str);
    let ch = (0u32..0x11000).filter_map(char::from_u32).map(|c| Case::Str(format!("{c}a {c}b")));
    let rnd = (0..n).map(move |i| {
        let mut r = Rng(seed ^ 0x57 ^ (i as u64).wrapping_mul(0xd1b5));
        let n = r.below(12);
        let s: String = (0..r.size(n, 300)).map(|_| r.word(F)).collect();
        Case::Str(s)
    });
    Box::new(ex.chain(ch).chain(rnd))
}

fn plain_strings(seed: u64, n: usize) -> It {
    const F: &[&str] =
        &["a", "\n", "é", "日", " ", "\r\n", "contract", "𝒳", "\r", "\t", "\u{c}", "\u{b}", "\u{85}", "\u{2028}", "\u{0}"];
    let ex = (0..=4).flat_map(|l| sequences(F, l)).map(Case::Str);
    let rnd = (0..n).map(move |i| {
        let mut r = Rng(seed ^ 0x1157 ^ (i as u64).wrapping_mul(0xd1b5));
        let n = r.below(60);
        let s: String = (0..r.size(n, 2000)).map(|_| r.word(F)).collect();
        Case::Str(s)
    });
    Box::new(ex.chain(rnd))
}

pub fn cases(prop: &str, thorough: bool, seed: u64) -> It {
    let k = if thorough { 20 } else { 1 };
    let s = seed.wrapping_mul(0x9e37_79b9);
    match prop {
        "C01" | "C02" => Box::new(huge().chain(near_keywords()).chain(lexical(s, 20_000 * k, thorough).chain(random_trees(s, 5_000 * k, true)))),
        "C03" => Box::new(
            large()
                .chain(shapes(3))
                .chain(random_trees(s, 20_000 * k, false))
                .chain(small_lines(if thorough { 3 } else { 2 }))
                .chain(random_trees(s, 20_000 * k, true))
                .chain(shapes(if thorough { 5 } else { 4 })),
        ),
        "C04" => Box::new(
            large()
                .chain(huge())
                .chain(near_keywords())
                .chain(small_lines(2))
                .chain(random_trees(s, 30_000 * k, true))
                .chain(shapes(4))
                .chain(lexical(s, 5_000 * k, false))
                .chain(small_lines(if thorough { 3 } else { 2 })),
        ),
        "C05" => Box::new(
            large()
                .chain(many_problems())
                .chain(semantic(s, 20_000 * k))
                .chain(random_trees(s, 10_000 * k, true))
                .chain(small_lines(2))
                .chain(shapes(4)),
        ),
        "C06" | "C08" => Box::new(
            large()
                .chain(random_trees(s, 6_000 * k, false))
                .chain(shapes(if thorough { 4 } else { 3 }))
                .chain(small_lines(2)),
        ),
        "C07" => Box::new(
            strings(s, 20_000 * k).chain(random_trees(s, 2_000 * k, false)).chain(small_lines(2)),
        ),
        "C09" => Box::new(files(s, 8_000 * k).chain(large_files().into_iter().map(Case::File))),
        "C10" => Box::new(scaf(s, 6_000 * k).chain(large_files().into_iter().enumerate().map(|(i, text)| Case::Scaf {
            text,
            version: "0.8.0".into(),
            skip: i % 2 == 1,
            no_mods: i % 3 == 1,
        }))),
        "C11" => Box::new(checks(s, 6_000 * k).chain(large_files().into_iter().enumerate().map(move |(i, t)| {
            let mut r = Rng(s ^ 0x1a ^ i as u64);
            let sol = solidity(&t, &mut r, false);
            Case::Check { tree: Content::Text(t), sol: Content::Text(sol), no_mods: i % 3 == 1 }
        }))),
        "C12" => Box::new(fixes(s, 1_500 * k).chain(large_files().into_iter().filter(|t| t.len() < 3000).enumerate().map(move |(i, tree)| {
            let mut r = Rng(s ^ 0x1b ^ i as u64);
            let sol = solidity(&tree, &mut r, true);
            Case::Fix { tree, sol, no_mods: i % 3 == 1 }
        }))),
        "C13" => Box::new(batch(s, 1500 * k, true).chain(batch(s ^ 1, 1500 * k, false))),
        "C14" => Box::new(batch(s ^ 2, 1500 * k, true).chain(batch(s ^ 3, 1500 * k, false))),
        "C15" => Box::new(
            huge()
                .chain(many_problems())
                .chain(plain_strings(s, 5_000 * k))
                .chain(small_lines(2))
                .chain(random_trees(s, 10_000 * k, true))
                .chain(semantic(s, 5_000 * k))
                .chain(lexical(s, 5_000 * k, false))
                .chain(checks(s, 600 * k)),
        ),
        "C16" => Box::new(large_files().into_iter().map(Case::File).chain(split_texts(s, 20_000 * k))),
        "C17" => Box::new(
            files(s, 1_200 * k).chain(large_files().into_iter().filter(|t| t.len() < 6000).map(Case::File)).chain((0..120 * k).map(move |i| {
                let mut r = Rng(s ^ 0x17 ^ (i as u64).wrapping_mul(0xd1b5));
                Case::Fix { tree: tree_for_sol(&mut r), sol: String::new(), no_mods: r.chance(1, 3) }
            })),
        ),
        _ => Box::new(std::iter::empty()),
    }
}
