//! Documents: samples, mutations of samples, and generated valid documents.
use simrt::Rng;

static SAMPLES: &str = include_str!("../samples.txt");
static CORPUS: &str = include_str!("../corpus.json");
pub fn samples(lang: &str) -> Vec<String> {
    let mut v: Vec<String> = SAMPLES.split("=== ").filter_map(|s| s.split_once('\n')).filter(|(l, _)| *l == lang).map(|(_, t)| t.to_string()).collect();
    if let Ok(serde_json::Value::Object(m)) = serde_json::from_str(CORPUS) {
        v.extend(m.get(lang).and_then(|a| a.as_array()).into_iter().flatten().filter_map(|s| s.as_str()).map(String::from))
    }
    v
}
pub fn floor(s: &str, mut k: usize) -> usize {
    k = k.min(s.len());
    while !s.is_char_boundary(k) {
        k -= 1
    }
    k
}
pub fn span(r: &mut Rng, s: &str, max: u64) -> (usize, usize) {
    let a = floor(s, r.below(s.len() as u64 + 1) as usize);
    let b = floor(s, a + r.below(max) as usize).max(a);
    (a, b)
}
static BITS: &[&str] = &["é", "中", "\u{1F600}", "\"", "'", "\\", "\n", "\r\n", "\t", " ", "/*", "*/", "//", "#", "`", "{", "}", "(", ")", "[", "]", "<", ">", "0x", "1e", ".", "..", "=", "==", "->", "$", "@", "%", "&&", "|", "<!--", "-->", "\u{0}", "\u{feff}", "\u{301}", "_", "a"];
/// Some text of a language, valid or not.
pub fn soup(r: &mut Rng, lang: &str, max: usize) -> String {
    let c = samples(lang);
    let mut s = r.pick(&c).clone();
    if r.chance(700) {
        let (a, b) = span(r, &s, max as u64);
        s = s[a..b.max(floor(&s, a + 1)).max(a)].to_string()
    }
    for _ in 0..r.below(5) {
        let (a, b) = if r.chance(500) { let (a, _) = span(r, &s, 1); (a, a) } else { span(r, &s, 20) };
        let t = if r.chance(600) {
            r.pick(BITS).to_string()
        }
        else {
            let d = r.pick(&c);
            let (x, y) = span(r, d, 20);
            d[x..y].to_string()
        };
        s.replace_range(a..b, &t)
    }
    let k = floor(&s, max);
    s.truncate(k);
    s
}

// ---- grammars of the languages that reuse subtrees ----
type G = &'static [(&'static str, &'static [&'static str])];
static JSON: G = &[
    ("doc", &["$v", "{$m}", "[$l]"]),
    ("v", &["1", "\"s\"", "true", "null", "-2.5e3", "\"é\"", "\"\"", "{}", "[]", "{$m}", "[$l]", "{ $m , $m }", "[$v, $v]"]),
    ("m", &["\"a\": $v", "\"b\" : $v", "\"c\": $v, $m", "\"d\":\n  $v,\n  $m"]),
    ("l", &["$v", "$v, $v", "$v,\n $l"]),
];
static VON: G = &[
    ("doc", &["$m", "{$m}", "[$l]", "# c\n$m"]),
    ("v", &["1", "\"s\"", "true", "null", "-2.5", "A", "{}", "[]", "{$m}", "[$l]", "A {$m}", "B [$l]", "raw\"x\\\"", "{ $m }"]),
    ("m", &["a = $v", "b= $v", "c = $v, $m", "\"d\" = $v\n$m", "e = $v # c\n$m"]),
    ("l", &["$v", "$v, $v", "$v\n $l", "$v,$l"]),
];
static RUST: G = &[
    ("doc", &["$s", "$s $s", "$s\n$s\n$s", "// c\n$s\n$doc"]),
    ("b", &["{}", "{ $s }", "{ $s $s }", "{\n    $s\n    $s\n}", "{ $s /* c */ }"]),
    ("X", &["if $e $b", "loop $b", "if $e $b else $b", "while $e $b", "if $e $b else if $e $b else $b"]),
    ("s", &["x;", "let x = $e;", "let y=$e;", "f($e);", "return $e;", "return;", "fn f()$b", "fn g(a: i32) -> i32 $b", "if $e $b", "if $e $b else $b", "$X", "while $e $b", "loop $b", "for i in $e $b", "mod m $b", "use a;", "struct S;", "struct T {}", "$b", "x = $e;"]),
    ("e", &["1", "x", "\"s\"", "'c'", "true", "$e + $e", "-$e", "f($e, $e)", "a[$e]", "a.b", "($e)", "$e == $e", "$e && $e", "1..$e", "2.5"]),
];
static PYTHON: G = &[
    ("doc", &["$s", "$s$s", "$s\n$s$s", "# c\n$s$doc"]),
    ("s", &["x\n", "x = $e\n", "f($e)\n", "pass\n", "return $e\n", "import a\n", "from a import b\n", "raise $e\n", "assert $e\n", "del x\n", "global y\n", "if $e:\n$B", "if $e:\n$Belse:\n$B", "while $e:\n$B", "for i in $e:\n$B", "def f(a, b=1):\n$B", "class C:\n$B", "try:\n$Bexcept E:\n$B", "with $e:\n$B", "break\n", "x += 1\n"]),
    ("Y", &["x + 1", "(x)", "[x]", "f(x)", "lambda q: $e"]),
    ("e", &["1", "x", "'s'", "\"é\"", "$e + $e", "f($e)", "[$e, $e]", "{1: $e}", "($e)", "not $e", "a.b", "a[$e]", "$Y", "$e if $e else $e", "None"]),
];
static MOJO: G = &[
    ("doc", &["$s", "$s$s", "$s\n$s$s", "# c\n$s$doc"]),
    ("s", &["x\n", "var x = $e\n", "let y: Int = $e\n", "return $e\n", "return\n", "if $e:\n$B", "if $e:\n$Belse:\n$B", "while $e:\n$B", "fn f():\n$B", "fn g() -> Int:\n$B", "$e\n"]),
    ("e", &["1", "x", "\"s\"", "$e + $e", "($e)", "$e * $e", "$e == $e", "2.5"]),
];
static TOY: G = &[
    ("doc", &["$s", "$s $s", "$s\n$s\n$s", "# c\n$s\n$doc", "$s /* a /* b */ */ $s"]),
    ("s", &["x;", "@m;", "a = $e;", "a = @mm + $e;", "b=$e;", "$e;", "{ $s $s }", "{\n    $s\n    $s\n}", "{}", "/ l! $e;", "/ $e;", "(a, b) -> $e;", "f($e, @q);", "$e == $e;", "do $e;", "at + $e;"]),
    ("e", &["1", "x", "it", "at", "\"s\"", "'é'", "@m", "@mm", "$e + $e", "$e - $e * $e", "-$e", "!$e", "$e!", "x ^ y ^ $e", "f($e)", "f($e, $e)(x)", "[$e, $e]", "[]", "($e)", "($e, $e)", "(a) -> $e", "(a, b) -> ($e)", "(x)", "()", "() -> 1"]),
];
pub fn grammar(lang: &str) -> Option<G> {
    Some(match lang {
        "json" => JSON,
        "von" => VON,
        "rust" => RUST,
        "python" => PYTHON,
        "mojo" => MOJO,
        "toy" => TOY,
        _ => return None,
    })
}
/// Expands a template; `$B` is an indented block, `$x` a nonterminal.
pub fn expand(g: G, nt: &str, depth: usize, indent: usize, r: &mut Rng) -> String {
    let alts = g.iter().find(|x| x.0 == nt).map(|x| x.1).unwrap_or(&["x"]);
    // Deep down only alternatives without nonterminals of their own.
    let plain = alts.iter().filter(|a| !a.contains('$')).count();
    let t = if depth > 4 && plain > 0 { *r.pick(&alts.iter().filter(|a| !a.contains('$')).collect::<Vec<_>>()) } else { r.pick(alts) };
    fill(g, t, depth, indent, r)
}
pub fn fill(g: G, t: &str, depth: usize, indent: usize, r: &mut Rng) -> String {
    let mut out = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c != '$' {
            out.push(c);
            if c == '\n' && !it.as_str().is_empty() && !it.as_str().starts_with("$B") {
                out.push_str(&"    ".repeat(indent))
            }
            continue;
        }
        let rest = it.as_str();
        if rest.starts_with("B") {
            it.next();
            for _ in 0..r.range(1, 3) {
                out.push_str(&"    ".repeat(indent + 1));
                out.push_str(&expand(g, "s", depth + 1, indent + 1, r))
            }
            if it.as_str().starts_with("e") {
                out.push_str(&"    ".repeat(indent))
            }
            continue;
        }
        let nt = if rest.starts_with("doc") { "doc" } else { &rest[..1] };
        for _ in 0..nt.len() {
            it.next();
        }
        if nt == "s" && out.ends_with('\n') && indent > 0 && depth == 0 {
            out.push_str(&"    ".repeat(indent))
        }
        out.push_str(&expand(g, nt, depth + 1, indent, r))
    }
    out
}
