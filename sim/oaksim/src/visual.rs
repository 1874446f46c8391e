//! G01: trees and graphs turned into pictures by several threads at once.
use crate::service::{El, Tok, Toy};
use oak_core::tree::{GreenLeaf, GreenNode, GreenTree, RedNode, RedTree};
use oak_visualize::{ExportFormat, Graph, GraphEdge, GraphLayout, GraphLayoutAlgorithm, GraphLayoutConfig, GraphNode, Layout, LayoutExporter, NodeType, Rect, Size, TreeLayout, TreeLayoutAlgorithm, TreeLayoutConfig, TreeNode, to_svg};
use serde::{Deserialize, Serialize};
use simrt::{Rng, Scenario, Value, check, ev, json};
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Mutex,
};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step {
    /// 0 green tree, 1 red tree, 2 a tree with names of its own, 3 trees of several threads under one root, 4 graph
    k: u32,
    tree: usize,
    algo: usize,
    wide: bool,
    /// 0 layout only, 1 SVG, 2 HTML, 3 JSON, 4 through `Visualize`
    out: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Shape {
    /// Parent of node i + 1
    up: Vec<usize>,
    kind: Vec<u32>,
    /// More edges, for graphs: ends may be unknown, equal, and edges may be repeated
    more: Vec<(usize, usize)>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    shapes: Vec<Shape>,
    threads: Vec<Vec<Step>>,
}
fn make(r: &mut Rng, thorough: bool) -> Value {
    let shapes = (0..r.range(1, 3))
        .map(|_| {
            let n = if r.chance(100) { 1 } else { r.range(1, if thorough { 40 } else { 14 }) as usize };
            let deep = r.chance(300);
            Shape {
                up: (1..n).map(|i| if deep { i - 1 - r.below(2.min(i as u64)) as usize } else { r.below(i as u64) as usize }).collect(),
                kind: (0..n).map(|_| r.below(64) as u32).collect(),
                more: (0..r.below(6)).map(|_| (r.below(n as u64 + 1) as usize, r.below(n as u64 + 1) as usize)).collect(),
            }
        })
        .collect::<Vec<_>>();
    let n = shapes.len() as u64;
    let threads = (0..r.range(1, 4))
        .map(|_| (0..r.range(1, if thorough { 8 } else { 5 })).map(|_| Step { k: *r.pick(&[0, 0, 0, 1, 1, 2, 3, 4]), tree: r.below(n) as usize, algo: r.below(5) as usize, wide: r.chance(300), out: r.below(5) as u32 }).collect())
        .collect();
    json!({"cfg": simrt::make_cfg(r, true, &[]), "w": Case { shapes, threads }})
}
fn children(s: &Shape, i: usize) -> Vec<usize> {
    (i + 1..s.kind.len()).filter(|&j| s.up[j - 1] == i).collect()
}
fn green(s: &Shape, i: usize) -> GreenTree<'static, Toy> {
    let c: Vec<_> = children(s, i).into_iter().map(|j| green(s, j)).collect();
    let k = s.kind[i];
    if c.is_empty() && i > 0 && k % 4 != 0 {
        return GreenTree::Leaf(GreenLeaf::new([Tok::Word, Tok::Space, Tok::Ref, Tok::Group][k as usize / 4 % 4], k % 7));
    }
    GreenTree::Node(Box::leak(Box::new(GreenNode::new([El::Root, El::Ref, El::Group][k as usize / 4 % 3], Vec::leak(c)))))
}
const LABELS: &[&str] = &["main", "Vec<T>", "a && b", "\"quoted\"", "é'", "", "x]]>", "&amp;", "</text>"];
const TYPES: &[&str] = &["function", "struct", "module", "node", "leaf", ""];
fn size(k: u32) -> Option<Size> {
    (k % 5 == 1).then(|| Size::new(10.0 + (k % 9) as f64 * 30.0, 5.0 + (k % 3) as f64 * 50.0))
}
fn named(s: &Shape, i: usize, t: usize, n: usize) -> TreeNode {
    let k = s.kind[i];
    let mut it = TreeNode::new(format!("{}{t}.{n}.{i}", ["", "node_", " "][k as usize % 3]), LABELS[k as usize % LABELS.len()].into(), TYPES[k as usize / 3 % TYPES.len()].into());
    if let Some(z) = size(k) {
        it = it.with_size(z)
    }
    it.with_children(children(s, i).into_iter().map(|j| named(s, j, t, n)).collect())
}
/// `it` shows `g`: kinds, order, nesting.
fn same(it: &TreeNode, g: &GreenTree<'static, Toy>) -> Result<(), String> {
    let (label, ty, c) = match g {
        GreenTree::Node(n) => (format!("{:?}", n.kind()), "node", n.children()),
        GreenTree::Leaf(l) => (format!("{:?}", l.kind()), "leaf", &[][..]),
    };
    if it.label != label || it.node_type != ty || it.size.is_some() || !it.attributes.is_empty() || it.children.len() != c.len() {
        return Err(format!("{label} ({ty}) with {} children is shown as {} ({}) with {}", c.len(), it.label, it.node_type, it.children.len()));
    }
    it.children.iter().zip(c).try_for_each(|(a, b)| same(a, b))
}
fn all<'a>(it: &'a TreeNode, v: &mut Vec<&'a TreeNode>) {
    v.push(it);
    it.children.iter().for_each(|c| all(c, v))
}
fn links(it: &TreeNode, v: &mut Vec<(String, String)>) {
    for c in &it.children {
        v.push((it.id.clone(), c.id.clone()));
        links(c, v)
    }
}
fn engine(algo: usize, wide: bool) -> (TreeLayout, Size) {
    let mut c = TreeLayoutConfig::default();
    if wide {
        c = TreeLayoutConfig { node_width: 150.0, node_height: 20.0, level_distance: 33.0, sibling_distance: 7.0, subtree_distance: 1.0 }
    }
    let z = Size::new(c.node_width, c.node_height);
    let a = [TreeLayoutAlgorithm::Layered, TreeLayoutAlgorithm::Radial, TreeLayoutAlgorithm::Compact, TreeLayoutAlgorithm::Balloon][algo % 4];
    (TreeLayout::new().with_algorithm(a).with_config(c), z)
}
fn type_of(s: &str) -> NodeType {
    match s {
        "function" => NodeType::Function,
        "struct" => NodeType::Struct,
        "module" => NodeType::Module,
        _ => NodeType::Default,
    }
}
type Want = BTreeMap<String, (String, NodeType, Size)>;
fn layout_ok(l: &Layout, want: &Want, mut edges: Vec<(String, String)>) {
    for (id, (label, ty, z)) in want {
        let Some(n) = l.nodes.get(id) else { simrt::violation("node not drawn", &format!("{id} ({label}) is not in the picture")) };
        check!(n.id == *id && n.label == *label && n.node_type == *ty && n.rect.size == *z, "node drawn wrong", "{id} ({label}, {ty:?}, {z:?}) is {n:?}");
        check!(n.rect.origin.x.is_finite() && n.rect.origin.y.is_finite(), "node drawn wrong", "{n:?}");
    }
    check!(l.nodes.len() == want.len(), "node not in the tree", "{} nodes drawn, {} exist", l.nodes.len(), want.len());
    let mut got: Vec<_> = l.edges.iter().map(|e| (e.from.clone(), e.to.clone())).collect();
    got.sort();
    edges.sort();
    check!(got == edges, "edges", "drawn: {got:?}, exist: {edges:?}");
    for e in &l.edges {
        let ends = [l.nodes[&e.from].rect.center(), l.nodes[&e.to].rect.center()];
        check!(e.points == ends, "edges", "{e:?} does not join {ends:?}");
    }
    let f = |g: fn(&Rect) -> f64, h: fn(f64, f64) -> f64| l.nodes.values().map(|n| g(&n.rect)).reduce(h).unwrap_or(0.0);
    let (a, b, c, d) = (f(|r| r.origin.x, f64::min), f(|r| r.origin.y, f64::min), f(|r| r.origin.x + r.size.width, f64::max), f(|r| r.origin.y + r.size.height, f64::max));
    let o = &l.bounds;
    check!(o.origin.x == a && o.origin.y == b && o.size.width == c - a && o.size.height == d - b, "bounds", "{o:?} is not {a} {b} {c} {d}");
}
/// The labels in `text` elements and the numbers of nodes and edges of a well-formed SVG.
fn read(svg: &str) -> Result<(Vec<String>, usize, usize), String> {
    let (mut open, mut labels, mut nodes, mut paths): (Vec<&str>, _, _, _) = (vec![], vec![], 0, 0);
    let mut rest = svg;
    let mut text = String::new();
    loop {
        let at = rest.find('<').unwrap_or(rest.len());
        text = rest[..at].to_string();
        let plain = text.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&#39;", "'");
        if text.matches('&').count() != ["&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&#39;"].iter().map(|e| text.matches(e).count()).sum::<usize>() || text.contains("]]>") {
            return Err(format!("bad text {text:?}"));
        }
        text = plain.replace("&amp;", "&");
        rest = &rest[at..];
        if rest.is_empty() {
            break;
        }
        let end = rest.find('>').ok_or("a tag without end")?;
        let tag = &rest[1..end];
        rest = &rest[end + 1..];
        if let Some(name) = tag.strip_prefix('/') {
            if open.pop() != Some(name) {
                return Err(format!("</{name}> closes nothing"));
            }
            if name == "text" {
                labels.push(text.clone())
            }
            continue;
        }
        let name = tag.split([' ', '/']).next().unwrap();
        nodes += (name == "rect" && tag.contains("class=\"node\"")) as usize;
        paths += (name == "path" && tag.contains("class=\"edge\"")) as usize;
        if !tag.ends_with('/') {
            open.push(name)
        }
    }
    if !open.is_empty() || !text.trim().is_empty() {
        return Err(format!("left open: {open:?}"));
    }
    Ok((labels, nodes, paths))
}
fn svg_ok(svg: &str, l: &Layout) {
    match read(svg) {
        Err(e) => simrt::violation("picture broken", &format!("{e} in {svg}")),
        Ok((mut labels, nodes, paths)) => {
            check!(nodes == l.nodes.len() && paths == l.edges.len(), "picture incomplete", "{nodes} of {} nodes, {paths} of {} edges", l.nodes.len(), l.edges.len());
            let mut want: Vec<_> = l.nodes.values().map(|n| n.label.clone()).collect();
            labels.sort();
            want.sort();
            check!(labels == want, "labels", "drawn: {labels:?}, exist: {want:?}");
        }
    }
}
/// Equal but for the last digits of numbers, which readers may lose.
fn near(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            (x - y).abs() <= 1e-9 * (1.0 + y.abs())
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| near(a, b)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, a)| y.get(k).is_some_and(|b| near(a, b))),
        _ => a == b,
    }
}
fn pictures(l: &Layout, out: u32) {
    let export = |f| LayoutExporter::new(f).export(l).unwrap_or_else(|e| simrt::violation("drawing fails", &e.to_string()));
    match out {
        1 => svg_ok(&export(ExportFormat::Svg), l),
        2 => {
            let h = export(ExportFormat::Html);
            let svg = h.find("<svg").and_then(|a| h.rfind("</svg>").map(|b| &h[a..b + 6]));
            svg_ok(svg.unwrap_or_default(), l)
        }
        3 => {
            let j: Value = serde_json::from_str(&export(ExportFormat::Json)).unwrap_or_else(|e| simrt::violation("picture broken", &e.to_string()));
            let want: serde_json::Map<_, _> = l.nodes.values().map(|n| (n.id.clone(), json!({"x": n.rect.origin.x, "y": n.rect.origin.y, "width": n.rect.size.width, "height": n.rect.size.height}))).collect();
            let edges: Vec<_> = l.edges.iter().map(|e| json!({"from": e.from, "to": e.to, "label": e.label, "points": e.points.iter().map(|p| json!({"x": p.x, "y": p.y})).collect::<Vec<_>>()})).collect();
            check!(near(&j["nodes"], &Value::Object(want)) && near(&j["edges"], &Value::Array(edges)), "picture incomplete", "{j}");
        }
        _ => (),
    }
}
struct Shared {
    greens: Vec<GreenTree<'static, Toy>>,
    shapes: Vec<Shape>,
    /// All ids given so far
    ids: Mutex<BTreeSet<String>>,
    /// Trees of all threads
    pool: Mutex<Vec<TreeNode>>,
    drawn: Mutex<Vec<(TreeNode, usize, bool, Vec<Rect>)>>,
}
fn tree(it: TreeNode, s: &Step, sh: &Shared) {
    let (e, z) = engine(s.algo, s.wide);
    let l = e.layout_tree(&it).unwrap_or_else(|e| simrt::violation("drawing fails", &e.to_string()));
    let mut v = vec![];
    all(&it, &mut v);
    let want: Want = v.iter().map(|n| (n.id.clone(), (n.label.clone(), type_of(&n.node_type), n.size.unwrap_or(z)))).collect();
    check!(want.len() == v.len(), "id not unique", "{} nodes have {} ids", v.len(), want.len());
    let mut edges = vec![];
    links(&it, &mut edges);
    layout_ok(&l, &want, edges);
    pictures(&l, s.out);
    if s.out == 4 {
        let svg = if s.wide { e.visualize(&it) } else { to_svg(&it) };
        svg_ok(&svg.unwrap_or_else(|e| simrt::violation("drawing fails", &e.to_string())), &l)
    }
    let rects = v.iter().map(|n| l.nodes[&n.id].rect).collect();
    sh.drawn.lock().unwrap().push((it, s.algo, s.wide, rects));
}
fn graph(g: &Shape, s: &Step) {
    let mut it = Graph::new(s.wide);
    let mut want = Want::new();
    let c = GraphLayoutConfig { iterations: 5, ..Default::default() };
    for (i, k) in g.kind.iter().enumerate() {
        let mut n = GraphNode::new(format!("n{i}"), LABELS[*k as usize % LABELS.len()].into()).with_type(TYPES[*k as usize / 3 % TYPES.len()].into());
        if let Some(z) = size(*k) {
            n = n.with_size(z)
        }
        want.insert(n.id.clone(), (n.label.clone(), type_of(&n.node_type), n.size.unwrap_or(Size::new(c.node_width, c.node_height))));
        it.add_node(n)
    }
    for (a, b) in g.up.iter().copied().zip(1..).chain(g.more.iter().copied()) {
        it.add_edge(GraphEdge::new(format!("n{a}"), format!("n{b}")))
    }
    let edges = it.edges.iter().map(|e| (e.from.clone(), e.to.clone())).filter(|(a, b)| want.contains_key(a) && want.contains_key(b)).collect();
    let a = [GraphLayoutAlgorithm::ForceDirected, GraphLayoutAlgorithm::Circular, GraphLayoutAlgorithm::Hierarchical, GraphLayoutAlgorithm::Grid, GraphLayoutAlgorithm::Organic][s.algo];
    let e = GraphLayout::new().with_algorithm(a).with_config(c);
    let l = e.layout_graph(&it).unwrap_or_else(|e| simrt::violation("drawing fails", &e.to_string()));
    layout_ok(&l, &want, edges);
    pictures(&l, s.out);
    if s.out == 4 {
        svg_ok(&e.visualize(&it).unwrap_or_else(|e| simrt::violation("drawing fails", &e.to_string())), &l)
    }
}
fn worker(t: usize, steps: Vec<Step>, sh: &Shared) {
    for (n, s) in steps.into_iter().enumerate() {
        let g = sh.greens[s.tree];
        let it = match s.k {
            0 => {
                if s.out == 4 && s.algo == 0 {
                    let svg = to_svg(&g).unwrap_or_else(|e| simrt::violation("drawing fails", &e.to_string()));
                    let got = read(&svg).map(|(_, n, p)| (n, p));
                    let nodes = sh.shapes[s.tree].kind.len();
                    check!(got == Ok((nodes, nodes - 1)), "picture incomplete", "{got:?} instead of {nodes} nodes: {svg}");
                }
                if s.wide { TreeNode::from(g) } else { TreeNode::from(&g) }
            }
            1 => {
                let r = match &g {
                    GreenTree::Node(n) => RedTree::Node(RedNode::new(n, 7 * t)),
                    GreenTree::Leaf(_) => unreachable!(),
                };
                if s.wide { TreeNode::from(&r) } else { TreeNode::from(r) }
            }
            2 => named(&sh.shapes[s.tree], 0, t, n),
            3 => {
                let some = sh.pool.lock().unwrap().clone();
                ev!("draws {} trees", some.len());
                if some.len() > 1 {
                    simrt::probe("visual:trees of several conversions in one picture")
                }
                tree(TreeNode::new("all".into(), "all".into(), "module".into()).with_children(some), &s, sh);
                continue;
            }
            _ => {
                graph(&sh.shapes[s.tree], &s);
                ev!("graph");
                continue;
            }
        };
        if s.k < 2 {
            if let Err(e) = same(&it, &g) {
                simrt::violation("tree shown wrong", &e)
            }
            let mut v = vec![];
            all(&it, &mut v);
            for x in v {
                check!(sh.ids.lock().unwrap().insert(x.id.clone()), "id not unique", "{} names two nodes", x.id);
            }
            sh.pool.lock().unwrap().push(it.clone());
        }
        ev!("tree of {} nodes", it.node_count());
        tree(it, &s, sh)
    }
}
fn run(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap_or_else(|e| simrt::harness_error(&e.to_string()));
    let greens = c.shapes.iter().map(|s| green(s, 0)).collect();
    let sh: &'static Shared = Box::leak(Box::new(Shared { greens, shapes: c.shapes, ids: Mutex::default(), pool: Mutex::default(), drawn: Mutex::default() }));
    let ws: Vec<_> = c.threads.into_iter().enumerate().map(|(t, steps)| simrt::spawn(move || worker(t, steps, sh))).collect();
    for w in ws {
        simrt::join(w);
    }
    // Drawn again, alone.
    for (it, algo, wide, rects) in sh.drawn.lock().unwrap().iter() {
        let l = engine(*algo, *wide).0.layout_tree(it).unwrap_or_else(|e| simrt::violation("drawing fails", &e.to_string()));
        let mut v = vec![];
        all(it, &mut v);
        let again: Vec<_> = v.iter().map(|n| l.nodes[&n.id].rect).collect();
        check!(again == *rects, "depends on other threads", "drawn alone: {again:?}, drawn beside others: {rects:?}");
    }
}
pub static VISUAL: Scenario = Scenario { name: "pictures", about: "Threads turn syntax trees, named trees and graphs into pictures", make, run };
