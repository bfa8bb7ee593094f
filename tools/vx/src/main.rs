//! vx: mechanical extraction of Rust functions into a Verus file.
//!
//!     vx UNIT.vspec[,MORE.vspec...] --src NAME=FILE ... --out OUT.rs --report OUT.json
//!
//! The bodies and signatures of the emitted functions are the bytes of the
//! source file; the vspec adds contracts, loop invariants and proof text at
//! named places, and lists the rewrites (index expressions to spec'd methods,
//! token substitutions) that are applied.  Everything that is dropped or
//! rewritten is counted in the report.  A place named in the vspec that does
//! not exist in the source any more is reported as a lost anchor.

use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::spanned::Spanned;
use syn::visit::Visit;

// ------------------------------------------------------------------ vspec

#[derive(Default, Debug)]
struct FnSpec {
    ret: Option<String>,
    attr: String,
    contract: String,
    start: String,
    end: String,
    loops: BTreeMap<usize, LoopSpec>,
    arms: BTreeMap<String, (String, String)>, // arm of the match the body ends with -> (arguments, signature and contract)
    substs: Vec<Subst>,
    rename: Option<String>,
    optional: bool,
    drop: bool,
}

#[derive(Default, Debug)]
struct LoopSpec {
    kind: String,
    label: Option<String>,
    inv: String,
    start: String,
    end: String,
    after: String,
    before: String,
}

#[derive(Debug, Clone)]
struct Subst {
    pat: Vec<Pat>,
    rep: Vec<Rep>,
    text: String,
    required: bool,
}
#[derive(Debug, Clone, PartialEq)]
enum Pat {
    Tok(String),
    Cap(String),
}
#[derive(Debug, Clone)]
enum Rep {
    Text(String),
    Cap(String),
}

#[derive(Default)]
struct Vspec {
    prelude: String,
    postlude: String,
    items: Vec<ItemDir>,
    inserts: BTreeMap<String, String>, // impl / trait key -> text
    headers: BTreeMap<String, String>,
    fns: BTreeMap<String, FnSpec>,
    global: Vec<Subst>,
    index: bool,
    derives: BTreeMap<String, String>,
    open: bool,
    only: BTreeMap<String, BTreeSet<String>>, // impl key -> functions to take
    plain: bool,
    shard: usize,
    floatops: Option<String>,
    noshard: String, // the impl left out of that
    constfns: BTreeMap<String, String>,       // const key -> contract of the function it becomes
}

enum ItemDir {
    Source(String),
    All,
    Take(String),
    Drop(String),
}

fn flat(ts: TokenStream, out: &mut Vec<(String, usize, usize)>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !o.is_empty() {
                    let r = g.span_open().byte_range();
                    out.push((o.into(), r.start, r.end));
                }
                flat(g.stream(), out);
                if !o.is_empty() {
                    let r = g.span_close().byte_range();
                    out.push((c.into(), r.start, r.end));
                }
            }
            t => {
                let r = t.span().byte_range();
                out.push((t.to_string(), r.start, r.end));
            }
        }
    }
}

/// Token text of a pattern; `$x` is a capture, written as the ident `CAP_x`
fn parse_pat(s: &str) -> Vec<Pat> {
    let s = s.replace('$', "CAP_");
    // patterns need not be balanced: lex them with delimiters spaced out
    let mut out = vec![];
    for chunk in split_delims(&s) {
        if ["(", ")", "[", "]", "{", "}"].contains(&chunk.as_str()) {
            out.push(Pat::Tok(chunk));
            continue;
        }
        let ts: TokenStream = chunk.parse().unwrap_or_else(|e| panic!("pattern {:?}: {}", s, e));
        let mut v = vec![];
        flat(ts, &mut v);
        for (t, _, _) in v {
            if let Some(c) = t.strip_prefix("CAP_") {
                out.push(Pat::Cap(c.to_string()));
            } else {
                out.push(Pat::Tok(t));
            }
        }
    }
    out
}

fn split_delims(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if "()[]{}".contains(c) {
            if !cur.trim().is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            cur.clear();
            out.push(c.to_string());
        } else {
            cur.push(c);
        }
    }
    if !cur.trim().is_empty() {
        out.push(cur);
    }
    out
}

fn parse_rep(s: &str) -> Vec<Rep> {
    let mut out = vec![];
    let mut rest = s;
    while let Some(p) = rest.find('$') {
        out.push(Rep::Text(rest[..p].to_string()));
        let tail = &rest[p + 1..];
        let n = tail.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(tail.len());
        out.push(Rep::Cap(tail[..n].to_string()));
        rest = &tail[n..];
    }
    out.push(Rep::Text(rest.to_string()));
    out
}

fn parse_substs(text: &str, required: bool) -> Vec<Subst> {
    let mut out = vec![];
    for block in text.split("\n;;\n") {
        if block.trim().is_empty() {
            continue;
        }
        let (a, b) = block.split_once("==>").unwrap_or_else(|| panic!("subst without ==>: {}", block));
        out.push(Subst { pat: parse_pat(a), rep: parse_rep(b.trim()), text: a.trim().to_string(), required });
    }
    out
}

fn parse_vspec(text: &str, vs: &mut Vspec) {
    let mut sections: Vec<(String, String)> = vec![];
    for line in text.lines() {
        if let Some(h) = line.strip_prefix('%') {
            if h.starts_with('#') {
                continue;
            }
            sections.push((h.trim().to_string(), String::new()));
        } else if let Some(l) = sections.last_mut() {
            l.1.push_str(line);
            l.1.push('\n');
        }
    }
    for (h, body) in sections {
        let (dir, arg) = match h.split_once(' ') {
            Some((d, a)) => (d.to_string(), a.trim().to_string()),
            None => (h.clone(), String::new()),
        };
        match dir.as_str() {
            "prelude" => vs.prelude.push_str(&body),
            "postlude" => vs.postlude.push_str(&body),
            "source" => vs.items.push(ItemDir::Source(arg)),
            "all" => vs.items.push(ItemDir::All),
            "take" => vs.items.push(ItemDir::Take(arg)),
            "drop" => vs.items.push(ItemDir::Drop(arg)),
            "index" => vs.index = true,
            // emit structs and their fields as `pub` (visibility only; contracts can then name the fields)
            "open" => vs.open = true,
            // put inherent impls and outlined arms into N modules (Verus verifies modules in parallel)
            "shard" => {
                let (n, not) = arg.split_once(' ').unwrap_or((&arg, ""));
                vs.shard = n.parse().expect("shard");
                vs.noshard = not.to_string();
            }
            // in functions whose key starts so, `a + b` and `a * b` (on floats) become calls of fadd and fmul
            "floatops" => vs.floatops = Some(arg),
            // plain Rust (Kani), not a `verus!` block
            "plain" => vs.plain = true,
            "derive" => {
                let (k, d) = arg.split_once("::").expect("derive");
                vs.derives.insert(k.trim().to_string(), d.trim().to_string());
            }
            // only these functions of all `impl` blocks with this key
            "only" => {
                let (k, d) = arg.split_once('=').expect("only");
                vs.only.entry(k.trim().to_string()).or_default().extend(d.split_whitespace().map(|x| x.to_string()));
            }
            // a constant with an initialiser that calls functions: emitted as a function of no arguments
            "constfn" => {
                vs.constfns.insert(arg, body);
            }
            "insert" => vs.inserts.entry(arg).or_default().push_str(&body),
            "header" => {
                vs.headers.insert(arg, body.trim().to_string());
            }
            "dropfn" => vs.fns.entry(arg).or_default().drop = true,
            "fn" | "fn?" => {
                // KEY [| ret=r] [| attr=..]
                let mut it = arg.split(" | ");
                let key = it.next().unwrap().trim().to_string();
                let f = vs.fns.entry(key).or_default();
                for o in it {
                    let (k, v) = o.split_once('=').unwrap();
                    match k.trim() {
                        "ret" => f.ret = Some(v.trim().to_string()),
                        "attr" => f.attr = v.trim().to_string(),
                        "rename" => f.rename = Some(v.trim().to_string()),
                        o => panic!("option {}", o),
                    }
                }
                f.optional = dir == "fn?";
                f.contract.push_str(&body);
            }
            // KEY ARM | ARGS: the arm's body becomes a function of its own, with the signature and contract below
            "arm" => {
                let (k, args) = arg.split_once(" | ").expect("arm");
                let (key, name) = k.trim().rsplit_once(' ').expect("arm key");
                vs.fns.entry(key.trim().to_string()).or_default().arms.insert(name.to_string(), (args.trim().to_string(), body));
            }
            "start" => vs.fns.entry(arg).or_default().start.push_str(&body),
            "end" => vs.fns.entry(arg).or_default().end.push_str(&body),
            "loop" | "loopstart" | "loopend" | "loopafter" | "loopbefore" => {
                // KEY IDX [kind] [label]
                let mut p: Vec<&str> = arg.split_whitespace().collect();
                // the key may contain blanks: the last items are idx kind label
                let ix = p.iter().rposition(|x| x.parse::<usize>().is_ok()).expect("loop idx");
                let rest: Vec<&str> = p.split_off(ix + 1);
                let idx: usize = p.pop().unwrap().parse().unwrap();
                let key = p.join(" ");
                let l = vs.fns.entry(key).or_default().loops.entry(idx).or_default();
                match dir.as_str() {
                    "loop" => {
                        l.kind = rest.first().unwrap_or(&"").to_string();
                        l.label = rest.get(1).map(|s| s.to_string());
                        l.inv.push_str(&body)
                    }
                    "loopstart" => l.start.push_str(&body),
                    "loopafter" => l.after.push_str(&body),
                    "loopbefore" => l.before.push_str(&body),
                    _ => l.end.push_str(&body),
                }
            }
            "subst" => vs.fns.entry(arg).or_default().substs.extend(parse_substs(&body, true)),
            "gsubst" => vs.global.extend(parse_substs(&body, false)),
            o => panic!("unknown directive %{}", o),
        }
    }
}

// ------------------------------------------------------------------ source

fn squeeze(s: &str) -> String {
    // remove blanks and lifetimes
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\'' {
            i += 1;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            continue;
        }
        if !cs[i].is_whitespace() {
            out.push(cs[i]);
        }
        i += 1;
    }
    let out = out.replace("<,", "<").replace("<>", "");
    // drop module paths: `core::ops::Range` is `Range`
    let mut res = String::new();
    let mut word = String::new();
    let cs: Vec<char> = out.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
            i += 1;
            continue;
        }
        if c == ':' && i + 1 < cs.len() && cs[i + 1] == ':' {
            let low = word.chars().next().map(|c| c.is_lowercase()).unwrap_or(true);
            if low {
                word.clear();
                i += 2;
                continue;
            }
        }
        res.push_str(&word);
        word.clear();
        res.push(c);
        i += 1;
    }
    res.push_str(&word);
    res
}

fn self_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        t => squeeze(&t.to_token_stream().to_string()),
    }
}

fn self_full(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => squeeze(&p.path.segments.last().unwrap().to_token_stream().to_string()),
        t => squeeze(&t.to_token_stream().to_string()),
    }
}

fn impl_key(i: &syn::ItemImpl) -> String {
    match &i.trait_ {
        Some((_, p, _)) => {
            format!("impl {} for {}", squeeze(&p.segments.last().unwrap().to_token_stream().to_string()), self_full(&i.self_ty))
        }
        None => format!("impl {}", self_name(&i.self_ty)),
    }
}

fn item_key(i: &syn::Item) -> String {
    match i {
        syn::Item::Struct(s) => format!("struct {}", s.ident),
        syn::Item::Enum(s) => format!("enum {}", s.ident),
        syn::Item::Trait(s) => format!("trait {}", s.ident),
        syn::Item::Fn(s) => format!("fn {}", s.sig.ident),
        syn::Item::Const(s) => format!("const {}", s.ident),
        syn::Item::Mod(s) => format!("mod {}", s.ident),
        syn::Item::Type(s) => format!("type {}", s.ident),
        syn::Item::Use(_) => "use".into(),
        syn::Item::Impl(s) => impl_key(s),
        syn::Item::Macro(m) => format!("macro {}", m.ident.as_ref().map(|x| x.to_string()).unwrap_or_default()),
        _ => "other".into(),
    }
}

fn cfg_off(attrs: &[syn::Attribute]) -> bool {
    // features std and alloc on, everything else off
    fn eval(ts: TokenStream) -> bool {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        if v.is_empty() {
            return true;
        }
        let head = v[0].to_string();
        match head.as_str() {
            "feature" => {
                let f = v[2].to_string();
                f == "\"std\"" || f == "\"alloc\""
            }
            "any" | "all" | "not" => {
                let g = match &v[1] {
                    TokenTree::Group(g) => g.stream(),
                    _ => panic!("cfg"),
                };
                let mut parts: Vec<TokenStream> = vec![TokenStream::new()];
                for t in g {
                    if t.to_string() == "," {
                        parts.push(TokenStream::new());
                    } else {
                        parts.last_mut().unwrap().extend([t]);
                    }
                }
                let mut it = parts.into_iter().filter(|p| !p.is_empty()).map(eval);
                match head.as_str() {
                    "any" => it.any(|x| x),
                    "all" => it.all(|x| x),
                    _ => !it.next().unwrap(),
                }
            }
            _ => false,
        }
    }
    attrs.iter().any(|a| {
        a.path().is_ident("cfg")
            && match &a.meta {
                syn::Meta::List(l) => !eval(l.tokens.clone()),
                _ => false,
            }
    })
}

struct Src {
    text: String,
}

/// edits on one source file
struct Edits {
    // (pos_start, pos_end, text, class, seq): class 0 = closing insert, 1 = opening insert / replace
    v: Vec<(usize, usize, String, u8, i64)>,
    seq: i64,
}

impl Edits {
    fn new() -> Self {
        Edits { v: vec![], seq: 0 }
    }
    fn open(&mut self, at: usize, t: &str) {
        self.seq += 1;
        self.v.push((at, at, t.into(), 1, self.seq));
    }
    fn close(&mut self, at: usize, t: &str) {
        self.seq += 1;
        self.v.push((at, at, t.into(), 0, -self.seq));
    }
    fn replace(&mut self, a: usize, b: usize, t: &str) {
        self.seq += 1;
        self.v.push((a, b, t.into(), 2, self.seq));
    }
    fn render(&self, text: &str, a: usize, b: usize) -> String {
        let mut v: Vec<&(usize, usize, String, u8, i64)> = self.v.iter().filter(|e| e.0 >= a && e.1 <= b).collect();
        v.sort_by_key(|e| (e.0, e.3, e.4));
        let mut out = String::new();
        let mut pos = a;
        for e in v {
            if e.0 < pos {
                continue; // inside something already replaced
            }
            out.push_str(&text[pos..e.0]);
            out.push_str(&e.2);
            pos = e.1;
        }
        out.push_str(&text[pos..b]);
        out
    }
}

struct BodyVisitor<'e> {
    ed: &'e mut Edits,
    index: bool,
    loops: Vec<(String, usize, usize, usize, usize, usize, usize)>, // kind, body open end, body close start, pos of header expr end, for-expr start, loop end
    n_index: usize,
    skip: BTreeSet<usize>, // start offsets of index expressions kept native
    tests: usize,
    floatops: bool,
}

fn rng<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

impl<'e> BodyVisitor<'e> {
    fn native(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::Index(_) => {
                self.skip.insert(rng(e).0 ^ (rng(e).1 << 32));
                if let syn::Expr::Index(i) = e {
                    self.native(&i.expr);
                }
            }
            syn::Expr::Field(f) => self.native(&f.base),
            syn::Expr::Paren(p) => self.native(&p.expr),
            _ => {}
        }
    }
}

impl<'e, 'ast> Visit<'ast> for BodyVisitor<'e> {
    fn visit_item(&mut self, _: &'ast syn::Item) {}
    fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {
        self.native(&a.left);
        syn::visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, a: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(
            a.op,
            AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)
        ) {
            self.native(&a.left);
        }
        if self.floatops {
            let f = match a.op {
                Add(_) => "fadd",
                Sub(_) => "fsub",
                Mul(_) => "fmul",
                Div(_) => "fdiv",
                _ => "",
            };
            if !f.is_empty() {
                let (o, c) = rng(a);
                let (p, q) = rng(&a.op);
                self.ed.open(o, &format!("{}(", f));
                self.ed.replace(p, q, ",");
                self.ed.close(c, ")");
                self.n_index += 1;
            }
        }
        syn::visit::visit_expr_binary(self, a);
    }
    fn visit_expr_reference(&mut self, r: &'ast syn::ExprReference) {
        if r.mutability.is_some() {
            self.native(&r.expr);
        }
        syn::visit::visit_expr_reference(self, r);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        self.native(&m.receiver);
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_index(&mut self, ix: &'ast syn::ExprIndex) {
        let (a, b) = rng(ix);
        if self.index && !self.skip.contains(&(a ^ (b << 32))) {
            let meth = match &*ix.index {
                syn::Expr::Range(r) => {
                    if r.start.is_some() && r.end.is_some() && matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                        Some("sub")
                    } else {
                        None
                    }
                }
                _ => Some("at"),
            };
            if let Some(m) = meth {
                self.n_index += 1;
                let o = ix.bracket_token.span.open().byte_range();
                let c = ix.bracket_token.span.close().byte_range();
                self.ed.open(a, "(*");
                self.ed.replace(o.start, o.end, &format!(".{}(", m));
                self.ed.replace(c.start, c.end, "))");
            }
        }
        syn::visit::visit_expr_index(self, ix);
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        let o = f.body.brace_token.span.open().byte_range();
        let c = f.body.brace_token.span.close().byte_range();
        let e = rng(&*f.expr);
        self.loops.push(("for".into(), o.end, c.start, o.start, e.0, c.end, rng(f).0));
        syn::visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_while(&mut self, f: &'ast syn::ExprWhile) {
        let o = f.body.brace_token.span.open().byte_range();
        let c = f.body.brace_token.span.close().byte_range();
        self.loops.push(("while".into(), o.end, c.start, o.start, 0, c.end, rng(f).0));
        syn::visit::visit_expr_while(self, f);
    }
    fn visit_expr_loop(&mut self, f: &'ast syn::ExprLoop) {
        let o = f.body.brace_token.span.open().byte_range();
        let c = f.body.brace_token.span.close().byte_range();
        self.loops.push(("loop".into(), o.end, c.start, o.start, 0, c.end, rng(f).0));
        syn::visit::visit_expr_loop(self, f);
    }
    fn visit_expr_macro(&mut self, _: &'ast syn::ExprMacro) {
        self.tests += 1;
    }
}

struct Cx<'a> {
    vs: &'a Vspec,
    report_fns: Vec<Value>,
    lost: Vec<String>,
    used_fns: BTreeSet<String>,
    used_ins: BTreeSet<String>,
    used_head: BTreeSet<String>,
    subst_count: BTreeMap<String, usize>,
    n_index: usize,
    dropped: Vec<String>,
    all_loops_uncovered: Vec<String>,
    external: BTreeSet<String>,
    probe: bool,
    n_only: usize,
    outlined: Vec<String>, // arms of the impl at hand, when sharding
    shards: Vec<String>,
    n_sharded: usize,
    used_const: BTreeSet<String>,
}

fn line_of(text: &str, at: usize) -> usize {
    text[..at].bytes().filter(|b| *b == b'\n').count() + 1
}

impl<'a> Cx<'a> {
    fn apply_subst(&mut self, ed: &mut Edits, toks: &[(String, usize, usize)], s: &Subst, text: &str) -> usize {
        let mut n = 0;
        let mut i = 0;
        while i < toks.len() {
            // a leading `$recv` is the postfix expression in front of the rest of the pattern
            let recv = matches!(&s.pat[0], Pat::Cap(c) if c == "recv");
            let found = if recv {
                match match_at(toks, i, &s.pat, 1, &mut HashMap::new()) {
                    Some((end, mut caps)) if i > 0 => {
                        let j = postfix_start(toks, i - 1);
                        caps.insert("recv".into(), (toks[j].1, toks[i - 1].2));
                        Some((end, caps, toks[j].1))
                    }
                    _ => None,
                }
            } else {
                match_at(toks, i, &s.pat, 0, &mut HashMap::new()).map(|(e, c)| (e, c, toks[i].1))
            };
            if let Some((end, caps, from)) = found {
                // edits: walk the pattern; literal runs are replaced by the text between captures
                let mut pos = from;
                let last = toks[end - 1].2;
                let mut rep_i = 0;
                let mut ok = true;
                let order: Vec<&String> = s
                    .pat
                    .iter()
                    .filter_map(|p| if let Pat::Cap(c) = p { Some(c) } else { None })
                    .collect();
                let rorder: Vec<&String> = s
                    .rep
                    .iter()
                    .filter_map(|p| if let Rep::Cap(c) = p { Some(c) } else { None })
                    .collect();
                if order == rorder {
                    for c in order {
                        let (ca, cb) = caps[c];
                        let t = match &s.rep[rep_i] {
                            Rep::Text(t) => t.clone(),
                            _ => panic!(),
                        };
                        ed.replace(pos, ca, &t);
                        pos = cb;
                        rep_i += 2;
                    }
                    match &s.rep[rep_i] {
                        Rep::Text(t) => ed.replace(pos, last, t),
                        _ => panic!(),
                    }
                } else {
                    // captures reordered or repeated: replace as plain text
                    let mut t = String::new();
                    for r in &s.rep {
                        match r {
                            Rep::Text(x) => t.push_str(x),
                            Rep::Cap(c) => match caps.get(c) {
                                Some((a, b)) => t.push_str(&text[*a..*b]),
                                None => ok = false,
                            },
                        }
                    }
                    assert!(ok, "unknown capture in {}", s.text);
                    ed.replace(pos, last, &t);
                }
                n += 1;
                i = end;
            } else {
                i += 1;
            }
        }
        *self.subst_count.entry(s.text.clone()).or_default() += n;
        n
    }

    #[allow(clippy::too_many_arguments)]
    fn emit_fn(&mut self, src: &Src, key: &str, attrs: &[syn::Attribute], vis: Option<&syn::Visibility>, sig: &syn::Signature, block: Option<&syn::Block>, start: usize, end: usize) -> String {
        let _ = attrs;
        self.used_fns.insert(key.to_string());
        let vs = self.vs;
        let dflt = FnSpec::default();
        let spec = vs.fns.get(key);
        let has = spec.map(|s| !s.contract.trim().is_empty() || s.ret.is_some()).unwrap_or(false);
        let directive = spec.is_some();
        let spec = spec.unwrap_or(&dflt);
        if spec.drop {
            self.dropped.push(format!("fn {}", key));
            return String::new();
        }
        let mut ed = Edits::new();
        // start of the fn without attributes
        let vis_start = vis.map(|v| rng(v)).filter(|r| r.1 > r.0).map(|r| r.0);
        let sig_start = sig
            .constness
            .map(|c| c.span.byte_range().start)
            .or(sig.asyncness.map(|c| c.span.byte_range().start))
            .or(sig.unsafety.map(|c| c.span.byte_range().start))
            .unwrap_or(sig.fn_token.span.byte_range().start);
        let begin = vis_start.unwrap_or(sig_start);
        if let Some(r) = &spec.rename {
            let s = rng(&sig.ident);
            ed.replace(s.0, s.1, r);
        }
        if let syn::ReturnType::Type(_, ty) = &sig.output {
            if let Some(rn) = &spec.ret {
                let (a, b) = rng(&**ty);
                ed.open(a, &format!("({}: ", rn));
                ed.close(b, ")");
            }
        }
        if let (Some(syn::Visibility::Inherited), true) = (vis, self.vs.shard > 0 && !key.starts_with('<')) {
            ed.open(begin, "pub ");
        }
        if let Some(syn::Visibility::Restricted(v)) = vis {
            let (a, b) = rng(v);
            ed.replace(a, b, "pub");
        }
        let mut toks = vec![];
        flat(sig.to_token_stream(), &mut toks);
        let mut nloops = 0;
        if let Some(block) = block {
            flat(block.to_token_stream(), &mut toks);
            let bo = block.brace_token.span.open().byte_range();
            let bc = block.brace_token.span.close().byte_range();
            ed.open(bo.start, &format!("\n{}", spec.contract));
            if self.external.contains(key) {
                let mut e2 = Edits::new();
                if let Some(r) = &spec.rename {
                    let s = rng(&sig.ident);
                    e2.replace(s.0, s.1, r);
                }
                if let (syn::ReturnType::Type(_, ty), Some(rn)) = (&sig.output, &spec.ret) {
                    let (a, b) = rng(&**ty);
                    e2.open(a, &format!("({}: ", rn));
                    e2.close(b, ")");
                }
                let mut st = vec![];
                flat(sig.to_token_stream(), &mut st);
                for s in spec.substs.iter().chain(vs.global.iter()) {
                    self.apply_subst(&mut e2, &st, s, &src.text);
                }
                let head = e2.render(&src.text, begin, bo.start);
                self.report_fns.push(json!({
                    "fn": key, "line": line_of(&src.text, start), "directive": directive, "contract": has, "body": true, "loops": 0, "external": true,
                    "text": squeeze_ws(&src.text[begin..end]),
                }));
                return format!("/*FN {}*/ #[verifier::external_body] {}\n{}\n{{ unimplemented!() }}\n", key, head, spec.contract);
            }
            // `hide` has to come first
            let first = spec.start.trim_start().starts_with("hide(");
            if first {
                ed.open(bo.end, &format!("\n{}", spec.start));
            }
            if self.probe {
                ed.open(bo.end, "\nproof { assert(false); }\n");
            }
            if !first && !spec.start.is_empty() {
                ed.open(bo.end, &format!("\n{}", spec.start));
            }
            if !spec.end.is_empty() {
                let at = match block.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) => rng(e).0,
                    _ => bc.start,
                };
                ed.open(at, &format!("\n{}", spec.end));
            }
            let mut bv = BodyVisitor { ed: &mut ed, index: vs.index, loops: vec![], n_index: 0, skip: Default::default(), tests: 0, floatops: vs.floatops.as_ref().map_or(false, |p| key.starts_with(p.as_str())) };
            bv.visit_block(block);
            let loops = std::mem::take(&mut bv.loops);
            self.n_index += bv.n_index;
            nloops = loops.len();
            for (i, (kind, bo, bc, head_end, fexpr, lend, lstart)) in loops.iter().enumerate() {
                match spec.loops.get(&i) {
                    Some(l) => {
                        if l.kind != *kind {
                            self.lost.push(format!("loop {} #{}: is a `{}`, contract is for `{}`", key, i, kind, l.kind));
                        }
                        if let Some(lb) = &l.label {
                            ed.open(*fexpr, &format!("{}: ", lb));
                        }
                        ed.open(*head_end, &format!("\n{}", l.inv));
                        if !l.start.is_empty() {
                            ed.open(*bo, &format!("\n{}", l.start));
                        }
                        if !l.end.is_empty() {
                            ed.open(*bc, &format!("\n{}", l.end));
                        }
                        if !l.before.is_empty() {
                            ed.open(*lstart, &format!("\n{}", l.before));
                        }
                        if !l.after.is_empty() {
                            ed.close(*lend, &format!("\n{}", l.after));
                        }
                    }
                    None => self.all_loops_uncovered.push(format!("{} #{} ({})", key, i, kind)),
                }
            }
            for i in spec.loops.keys() {
                if *i >= loops.len() {
                    self.lost.push(format!("loop {} #{}", key, i));
                }
            }
        } else if let Some(p) = toks.last() {
            // trait method without a body: contract before `;`
            ed.open(p.2, &format!("\n{}", spec.contract));
        }
        for s in &spec.substs {
            let n = self.apply_subst(&mut ed, &toks, s, &src.text);
            if n == 0 && s.required {
                self.lost.push(format!("rewrite in {}: `{}`", key, s.text));
            }
        }
        for s in &vs.global {
            self.apply_subst(&mut ed, &toks, s, &src.text);
        }
        self.report_fns.push(json!({
            "fn": key, "line": line_of(&src.text, start), "directive": directive, "contract": has, "body": block.is_some(), "loops": nloops,
            "text": squeeze_ws(&src.text[begin..end]),
        }));
        let mut outlined = String::new();
        let mut parts: Vec<String> = vec![];
        if !spec.arms.is_empty() {
            let mut seen = BTreeSet::new();
            let m = match block.and_then(|b| b.stmts.last()) {
                Some(syn::Stmt::Expr(syn::Expr::Match(m), None)) => Some(m),
                _ => None,
            };
            let mut reps = vec![];
            for arm in m.map(|m| m.arms.iter().collect::<Vec<_>>()).unwrap_or_default() {
                let name = match &arm.pat {
                    syn::Pat::TupleStruct(t) => t.path.segments.last().unwrap().ident.to_string(),
                    syn::Pat::Path(t) => t.path.segments.last().unwrap().ident.to_string(),
                    syn::Pat::Lit(syn::PatLit { lit: syn::Lit::Int(i), .. }) => i.base10_digits().to_string(),
                    _ => continue,
                };
                if let Some((args, head)) = spec.arms.get(&name) {
                    if arm.guard.is_some() || !seen.insert(name.clone()) {
                        continue;
                    }
                    let (a, b) = rng(&*arm.body);
                    let braced = matches!(&*arm.body, syn::Expr::Block(_));
                    let text = ed.render(&src.text, a, b);
                    let p = if self.probe { "proof { assert(false); }\n" } else { "" };
                    parts.push(format!("/*FN {}__{}*/ pub fn {}__{}{}\n{{ {}{} }}\n", key, name, sig.ident, name, head, p, if braced { text } else { format!("{{ {} }}", text) }));
                    self.report_fns.push(json!({
                        "fn": format!("{}__{}", key, name), "line": line_of(&src.text, a), "directive": true, "contract": true, "body": true, "loops": 0,
                        "text": squeeze_ws(&src.text[a..b]), "outlined": true,
                    }));
                    reps.push((a, b, format!("{{ Self::{}__{}({}) }}", sig.ident, name, args)));
                }
            }
            for (a, b, t) in reps {
                ed.replace(a, b, &t);
            }
            for n in spec.arms.keys() {
                if !seen.contains(n) {
                    self.lost.push(format!("arm {} of {}", n, key));
                }
            }
        }
        if self.vs.shard > 0 {
            self.outlined.extend(parts);
        } else {
            outlined = parts.concat();
        }
        let body = ed.render(&src.text, begin, end);
        let at = if spec.attr.is_empty() { String::new() } else { format!("{}\n", spec.attr) };
        format!("/*FN {}*/ {}{}\n{}", key, at, body, outlined)
    }

    fn emit_impl(&mut self, src: &Src, i: &syn::ItemImpl) -> String {
        let key = impl_key(i);
        let bo = i.brace_token.span.open().byte_range();
        let istart = i.unsafety.map(|u| u.span.byte_range().start).unwrap_or(i.impl_token.span.byte_range().start);
        let renamed = self.vs.headers.get(&key);
        let header = match renamed {
            Some(h) => {
                self.used_head.insert(key.clone());
                h.clone()
            }
            None => src.text[istart..bo.start].to_string(),
        };
        let mut out = format!("{} {{\n", header);
        if let Some(t) = self.vs.inserts.get(&key) {
            if self.used_ins.insert(key.clone()) {
                out.push_str(t);
            }
        }
        let head_len = out.len();
        let prefix = match &i.trait_ {
            Some(_) => format!("<{}>::", key.strip_prefix("impl ").unwrap()),
            None => format!("{}::", self_name(&i.self_ty)),
        };
        for it in &i.items {
            match it {
                syn::ImplItem::Fn(f) => {
                    if cfg_off(&f.attrs) {
                        continue;
                    }
                    let fkey = format!("{}{}", prefix, f.sig.ident);
                    if let Some(o) = self.vs.only.get(&key) {
                        if !o.contains(&f.sig.ident.to_string()) {
                            self.n_only += 1;
                            continue;
                        }
                    }
                    let (a, b) = rng(f);
                    out.push_str(&self.emit_fn(src, &fkey, &f.attrs, Some(&f.vis), &f.sig, Some(&f.block), a, b));
                }
                syn::ImplItem::Type(t) => {
                    if renamed.is_none() {
                        let (a, b) = (t.type_token.span.byte_range().start, rng(t).1);
                        out.push_str(&src.text[a..b]);
                        out.push('\n');
                    }
                }
                syn::ImplItem::Const(c) => {
                    let ckey = format!("{}{}", prefix, c.ident);
                    if let Some(con) = self.vs.constfns.get(&ckey) {
                        out.push_str(&self.emit_constfn(src, &ckey, &c.ident, &c.ty, &c.expr, con));
                        continue;
                    }
                    if self.vs.only.contains_key(&key) && !self.vs.only[&key].contains(&c.ident.to_string()) {
                        self.n_only += 1;
                        continue;
                    }
                    let a = rng(&c.vis);
                    let a = if a.1 > a.0 { a.0 } else { c.const_token.span.byte_range().start };
                    out.push_str(&src.text[a..rng(c).1]);
                    out.push('\n');
                }
                _ => self.lost.push(format!("unsupported impl item in {}", key)),
            }
        }
        if self.vs.only.contains_key(&key) && out.len() == head_len {
            return String::new();
        }
        out.push_str("}\n");
        if self.vs.shard > 0 && i.trait_.is_none() && key != self.vs.noshard {
            // the functions of an impl with outlined arms are long: one block each
            let mut all = vec![];
            if self.outlined.is_empty() {
                all.push(out);
            } else {
                let mut parts = out[header.len() + 3..out.len() - 2].split("/*FN ");
                let first = parts.next().unwrap();
                if !first.trim().is_empty() {
                    all.push(format!("{} {{\n{}}}\n", header, first));
                }
                all.extend(parts.map(|p| format!("{} {{\n/*FN {}}}\n", header, p)));
            }
            all.extend(std::mem::take(&mut self.outlined).into_iter().map(|o| format!("{} {{\n{}}}\n", header, o)));
            for t in all {
                let k = self.n_sharded % self.vs.shard;
                self.n_sharded += 1;
                self.shards[k].push_str(&t);
            }
            return String::new();
        }
        out
    }

    fn emit_constfn(&mut self, src: &Src, key: &str, id: &syn::Ident, ty: &syn::Type, e: &syn::Expr, contract: &str) -> String {
        self.used_const.insert(key.to_string());
        let (a, b) = rng(e);
        let (ta, tb) = rng(ty);
        self.report_fns.push(json!({
            "fn": key, "line": line_of(&src.text, a), "directive": true, "contract": true, "body": true, "loops": 0,
            "text": squeeze_ws(&src.text[a..b]), "external": self.external.contains(key),
        }));
        // contract, and behind a line `;;` what goes to the start of the body
        let (contract, st) = contract.split_once("\n;;\n").unwrap_or((contract, ""));
        let probe = if self.probe { "proof { assert(false); }" } else { "" };
        if self.external.contains(key) {
            return format!("/*FN {}*/ #[verifier::external_body] pub fn {}() -> (r: {})\n{}\n{{ unimplemented!() }}\n", key, id, &src.text[ta..tb], contract);
        }
        let mut ed = Edits::new();
        let mut toks = vec![];
        flat(e.to_token_stream(), &mut toks);
        for s in &self.vs.global.clone() {
            self.apply_subst(&mut ed, &toks, s, &src.text);
        }
        format!("/*FN {}*/ #[allow(non_snake_case)] pub fn {}() -> (r: {})\n{}\n{{ {} {} {} }}\n", key, id, &src.text[ta..tb], contract, st, probe, ed.render(&src.text, a, b))
    }

    fn emit_item(&mut self, src: &Src, it: &syn::Item) -> String {
        match it {
            syn::Item::Impl(i) => self.emit_impl(src, i),
            syn::Item::Fn(f) => {
                let (a, b) = rng(f);
                self.emit_fn(src, &f.sig.ident.to_string(), &f.attrs, Some(&f.vis), &f.sig, Some(&f.block), a, b)
            }
            syn::Item::Trait(t) => {
                let key = format!("trait {}", t.ident);
                let bo = t.brace_token.span.open().byte_range();
                let a = rng(&t.vis);
                let a = if a.1 > a.0 { a.0 } else { t.trait_token.span.byte_range().start };
                let header = match self.vs.headers.get(&key) {
                    Some(h) => {
                        self.used_head.insert(key.clone());
                        h.clone()
                    }
                    None => match &t.vis {
                        syn::Visibility::Restricted(v) => format!("pub {}", &src.text[rng(v).1..bo.start]),
                        _ => src.text[a..bo.start].to_string(),
                    },
                };
                let mut out = format!("{} {{\n", header);
                if let Some(t) = self.vs.inserts.get(&key) {
                    self.used_ins.insert(key.clone());
                    out.push_str(t);
                }
                for ti in &t.items {
                    match ti {
                        syn::TraitItem::Fn(f) => {
                            let fkey = format!("{}::{}", t.ident, f.sig.ident);
                            let (a, b) = rng(f);
                            out.push_str(&self.emit_fn(src, &fkey, &f.attrs, None, &f.sig, f.default.as_ref(), a, b));
                        }
                        syn::TraitItem::Const(c) => {
                            out.push_str(&src.text[c.const_token.span.byte_range().start..rng(c).1]);
                            out.push('\n');
                        }
                        syn::TraitItem::Type(c) => {
                            out.push_str(&src.text[c.type_token.span.byte_range().start..rng(c).1]);
                            out.push('\n');
                        }
                        _ => self.lost.push(format!("unsupported trait item in {}", key)),
                    }
                }
                out.push_str("}\n");
                out
            }
            syn::Item::Const(c) if self.vs.constfns.contains_key(&c.ident.to_string()) => {
                let con = &self.vs.constfns[&c.ident.to_string()];
                self.emit_constfn(src, &c.ident.to_string(), &c.ident, &c.ty, &c.expr, con)
            }
            syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Const(_) | syn::Item::Type(_) => {
                // strip attributes everywhere (docs, repr, derives, defaults)
                let (a, b) = rng(it);
                let mut ed = Edits::new();
                let mut st = Strip { ed: &mut ed };
                st.visit_item(it);
                let mut pubs = "";
                if self.vs.open {
                    let (vis, fields): (&syn::Visibility, Option<&syn::Fields>) = match it {
                        syn::Item::Struct(s) => (&s.vis, Some(&s.fields)),
                        syn::Item::Enum(e) => (&e.vis, None),
                        syn::Item::Const(c) => (&c.vis, None),
                        syn::Item::Type(c) => (&c.vis, None),
                        _ => unreachable!(),
                    };
                    if matches!(vis, syn::Visibility::Inherited) {
                        pubs = "pub ";
                    }
                    if let Some(f) = fields {
                        for x in f.iter() {
                            if matches!(x.vis, syn::Visibility::Inherited) {
                                let at = match &x.ident {
                                    Some(i) => rng(i).0,
                                    None => rng(&x.ty).0,
                                };
                                ed.open(at, "pub ");
                            }
                        }
                    }
                }
                let mut toks = vec![];
                flat(it.to_token_stream(), &mut toks);
                for s in &self.vs.global {
                    self.apply_subst(&mut ed, &toks, s, &src.text);
                }
                let d = self.vs.derives.get(&item_key(it)).cloned().unwrap_or_default();
                // the attributes in front of the item are cut off, not only blanked, so that `pub` can be put first
                let head = item_start(it);
                format!("{}\n{}{}\n", d, pubs, ed.render(&src.text, head.max(a), b))
            }
            _ => {
                self.lost.push(format!("unsupported item {}", item_key(it)));
                String::new()
            }
        }
    }
}

struct Strip<'e> {
    ed: &'e mut Edits,
}
impl<'e, 'ast> Visit<'ast> for Strip<'e> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let (s, e) = rng(a);
        self.ed.replace(s, e, "");
    }
    fn visit_vis_restricted(&mut self, v: &'ast syn::VisRestricted) {
        let (s, e) = rng(v);
        self.ed.replace(s, e, "pub");
    }
}

fn item_start(i: &syn::Item) -> usize {
    let (vis, kw) = match i {
        syn::Item::Struct(s) => (&s.vis, s.struct_token.span.byte_range().start),
        syn::Item::Enum(s) => (&s.vis, s.enum_token.span.byte_range().start),
        syn::Item::Const(s) => (&s.vis, s.const_token.span.byte_range().start),
        syn::Item::Type(s) => (&s.vis, s.type_token.span.byte_range().start),
        _ => unreachable!(),
    };
    let r = rng(vis);
    if r.1 > r.0 {
        r.0
    } else {
        kw
    }
}

fn squeeze_ws(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// start of the postfix expression that ends with token `k`
fn postfix_start(toks: &[(String, usize, usize)], k: usize) -> usize {
    let ident = |t: &str| t.chars().next().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false);
    let mut k = k;
    loop {
        // one primary: a group with what it is applied to, or a name
        while ["?", ")", "]"].contains(&toks[k].0.as_str()) {
            if toks[k].0 != "?" {
                let mut d = 0;
                loop {
                    match toks[k].0.as_str() {
                        ")" | "]" | "}" => d += 1,
                        "(" | "[" | "{" => d -= 1,
                        _ => {}
                    }
                    if d == 0 || k == 0 {
                        break;
                    }
                    k -= 1;
                }
                // `path::<T>(..)`
                if k >= 4 && toks[k - 1].0 == ">" {
                    if let Some(o) = angle_open(toks, k - 1) {
                        if o >= 3 && toks[o - 1].0 == ":" && toks[o - 2].0 == ":" && ident(&toks[o - 3].0) {
                            k = o - 3;
                            continue;
                        }
                    }
                }
                // `f(..)`, `x[..]`, `(..)(..)`: go on in front of the group, if something is there
                if k == 0 || !(ident(&toks[k - 1].0) || ["?", ")", "]"].contains(&toks[k - 1].0.as_str())) || ["return", "match", "if", "while", "in", "let", "else"].contains(&toks[k - 1].0.as_str()) {
                    return k;
                }
            }
            k -= 1;
        }
        if k >= 2 && toks[k - 1].0 == "." {
            k -= 2;
            continue;
        }
        if k >= 3 && toks[k - 1].0 == ":" && toks[k - 2].0 == ":" {
            // `<T>::f`
            if toks[k - 3].0 == ">" {
                if let Some(o) = angle_open(toks, k - 3) {
                    return o;
                }
            }
            k -= 3;
            continue;
        }
        return k;
    }
}

/// the `<` that the `>` at `k` closes
fn angle_open(toks: &[(String, usize, usize)], k: usize) -> Option<usize> {
    let mut d = 0;
    let mut j = k;
    loop {
        match toks[j].0.as_str() {
            ">" => d += 1,
            "<" => d -= 1,
            ";" | "{" | "}" | "=" => return None,
            _ => {}
        }
        if d == 0 {
            return Some(j);
        }
        if j == 0 {
            return None;
        }
        j -= 1;
    }
}

fn match_at(
    toks: &[(String, usize, usize)],
    i: usize,
    pat: &[Pat],
    pi: usize,
    caps: &mut HashMap<String, (usize, usize)>,
) -> Option<(usize, HashMap<String, (usize, usize)>)> {
    if pi == pat.len() {
        return Some((i, caps.clone()));
    }
    if i >= toks.len() {
        return None;
    }
    match &pat[pi] {
        Pat::Tok(t) => {
            if toks[i].0 == *t {
                match_at(toks, i + 1, pat, pi + 1, caps)
            } else {
                None
            }
        }
        Pat::Cap(c) => {
            // shortest balanced non-empty run (of one statement, unless named $any..)
            let mut depth = 0i32;
            let mut j = i;
            while j < toks.len() {
                let t = toks[j].0.as_str();
                if ["(", "[", "{"].contains(&t) {
                    depth += 1;
                }
                if [")", "]", "}"].contains(&t) {
                    depth -= 1;
                }
                if depth < 0 || (t == ";" && depth == 0 && !c.starts_with("any")) {
                    return None;
                }
                if depth == 0 {
                    let mut c2 = caps.clone();
                    c2.insert(c.clone(), (toks[i].1, toks[j].2));
                    if let Some(r) = match_at(toks, j + 1, pat, pi + 1, &mut c2) {
                        return Some(r);
                    }
                }
                j += 1;
            }
            None
        }
    }
}

fn walk<'x>(items: &'x [syn::Item], out: &mut Vec<&'x syn::Item>) {
    for i in items {
        let attrs: &[syn::Attribute] = match i {
            syn::Item::Mod(m) => &m.attrs,
            syn::Item::Impl(m) => &m.attrs,
            syn::Item::Fn(m) => &m.attrs,
            syn::Item::Struct(m) => &m.attrs,
            syn::Item::Enum(m) => &m.attrs,
            syn::Item::Const(m) => &m.attrs,
            syn::Item::Trait(m) => &m.attrs,
            syn::Item::Use(m) => &m.attrs,
            _ => &[],
        };
        let test = attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"));
        if test || cfg_off(attrs) {
            continue;
        }
        if let syn::Item::Mod(m) = i {
            if let Some((_, c)) = &m.content {
                walk(c, out);
            }
        }
        if let syn::Item::Const(c) = i {
            // `const _: () = { .. }` blocks (bitflags!, derives) hold items too
            if c.ident == "_" {
                if let syn::Expr::Block(b) = &*c.expr {
                    for s in &b.block.stmts {
                        if let syn::Stmt::Item(it) = s {
                            out.push(it);
                        }
                    }
                }
                continue;
            }
        }
        out.push(i);
    }
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut specs = vec![];
    let mut srcs: HashMap<String, String> = HashMap::new();
    let mut out = String::new();
    let mut report = String::new();
    let mut external: BTreeSet<String> = BTreeSet::new();
    let mut probe = false;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--src" => {
                let v = args.next().unwrap();
                let (n, f) = v.split_once('=').unwrap();
                srcs.insert(n.into(), f.into());
            }
            // leave the body of this function out and assume its contract
            "--external" => {
                external.insert(args.next().unwrap());
            }
            // put an assertion that must fail at the start of every function
            "--probe" => probe = true,
            "--out" => out = args.next().unwrap(),
            "--report" => report = args.next().unwrap(),
            _ => specs.push(a),
        }
    }
    let mut vs = Vspec::default();
    for s in &specs {
        let t = std::fs::read_to_string(s).unwrap_or_else(|e| panic!("{}: {}", s, e));
        parse_vspec(&t, &mut vs);
    }
    let mut parsed: HashMap<String, (Src, syn::File)> = HashMap::new();
    for (n, f) in &srcs {
        let t = std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{}: {}", f, e));
        let file = syn::parse_file(&t).unwrap_or_else(|e| panic!("{}: {}", f, e));
        parsed.insert(n.clone(), (Src { text: t }, file));
    }
    let mut cx = Cx {
        vs: &vs,
        report_fns: vec![],
        lost: vec![],
        used_fns: Default::default(),
        used_ins: Default::default(),
        used_head: Default::default(),
        subst_count: Default::default(),
        n_index: 0,
        dropped: vec![],
        all_loops_uncovered: vec![],
        external,
        probe,
        n_only: 0,
        outlined: vec![],
        shards: vec![String::new(); vs.shard],
        n_sharded: 0,
        used_const: Default::default(),
    };
    let mut text = String::from("#![allow(non_snake_case, non_upper_case_globals, unused_imports, dead_code, unused_variables, unused_mut, non_camel_case_types, unused_parens, unused_braces, unused_assignments)]\n");
    if !vs.plain {
        text.push_str("use vstd::prelude::*;\nverus! {\n");
    }
    text.push_str(&vs.prelude);
    let mut cur: Option<&(Src, syn::File)> = None;
    let drops: BTreeSet<&String> = vs.items.iter().filter_map(|i| if let ItemDir::Drop(k) = i { Some(k) } else { None }).collect();
    let mut index: BTreeMap<String, Vec<&syn::Item>> = BTreeMap::new();
    let mut order: Vec<&syn::Item> = vec![];
    for d in &vs.items {
        match d {
            ItemDir::Source(n) => {
                // `%source NAME MODULE`: only what is inside that module
                let (n, module) = match n.split_once(' ') {
                    Some((a, b)) => (a, Some(b.trim())),
                    None => (n.as_str(), None),
                };
                cur = Some(parsed.get(n).unwrap_or_else(|| panic!("no source {}", n)));
                order = vec![];
                let top = &cur.unwrap().1.items;
                match module {
                    None => walk(top, &mut order),
                    Some(m) => {
                        let mut all = vec![];
                        walk(top, &mut all);
                        for i in all {
                            if let syn::Item::Mod(x) = i {
                                if x.ident == m {
                                    if let Some((_, c)) = &x.content {
                                        walk(c, &mut order);
                                    }
                                }
                            }
                        }
                    }
                }
                index = BTreeMap::new();
                for i in &order {
                    index.entry(item_key(i)).or_default().push(i);
                }
            }
            ItemDir::All => {
                let (src, _) = cur.unwrap();
                for i in order.clone() {
                    let k = item_key(i);
                    if matches!(i, syn::Item::Mod(_) | syn::Item::Use(_) | syn::Item::ExternCrate(_)) {
                        continue;
                    }
                    if drops.contains(&k) {
                        cx.dropped.push(k);
                        continue;
                    }
                    let t = cx.emit_item(src, i);
                    text.push_str(&t);
                }
            }
            ItemDir::Take(k) => {
                let (src, _) = cur.unwrap();
                let (k, opt) = match k.strip_suffix(" ?") {
                    Some(k) => (k.to_string(), true),
                    None => (k.clone(), false),
                };
                match index.get(&k) {
                    Some(v) => {
                        for i in v.clone() {
                            let t = cx.emit_item(src, i);
                            text.push_str(&t);
                        }
                    }
                    None if opt => {}
                    None => cx.lost.push(format!("item `{}`", k)),
                }
            }
            ItemDir::Drop(_) => {}
        }
    }
    for (i, t) in cx.shards.iter().enumerate() {
        text.push_str(&format!("pub mod shard{} {{\nuse super::*;\n{}}}\n", i, t));
    }
    text.push_str(&vs.postlude);
    if !vs.plain {
        text.push_str("\n} // verus!\nfn main() {}\n");
    }
    for (k, f) in &vs.fns {
        if !cx.used_fns.contains(k) && !f.optional {
            cx.lost.push(format!("fn {}", k));
        }
    }
    for k in vs.constfns.keys() {
        if !cx.used_const.contains(k) {
            cx.lost.push(format!("const {}", k));
        }
    }
    for k in vs.inserts.keys() {
        if !cx.used_ins.contains(k) {
            cx.lost.push(format!("insert {}", k));
        }
    }
    for k in vs.headers.keys() {
        if !cx.used_head.contains(k) {
            cx.lost.push(format!("header {}", k));
        }
    }
    std::fs::write(&out, &text).unwrap();
    let r = json!({
        "functions": cx.report_fns,
        "lost": cx.lost,
        "dropped": cx.dropped,
        "not_taken": cx.n_only,
        "index_rewrites": cx.n_index,
        "substitutions": cx.subst_count,
        "loops_without_invariant": cx.all_loops_uncovered,
    });
    std::fs::write(&report, serde_json::to_string_pretty(&r).unwrap()).unwrap();
}
