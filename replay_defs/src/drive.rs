use proc_macro2::TokenStream;
use replay::*;
use syn::parse::{Parse, ParseStream};

type Out = Result<String, (String, String)>;
fn e<T>(k: &str, m: String) -> Result<T, (String, String)> { Err((k.into(), m)) }

/// Choices: a byte each; 0 (also past the end) is the plainest one.
struct Ch<'a> { b: &'a [u8], i: usize }
impl<'a> Ch<'a> {
    fn below(&mut self, n: usize) -> usize { let x = *self.b.get(self.i).unwrap_or(&0) as usize; self.i += 1; x % n }
    fn pick<T: Copy>(&mut self, s: &[T]) -> T { let n = s.len(); s[self.below(n)] }
    /// true once in about forty
    fn rare(&mut self) -> bool { let x = *self.b.get(self.i).unwrap_or(&0); self.i += 1; x % 41 == 7 }
    fn int(&mut self, v: u128) -> String {
        match self.below(6) { 1 => format!("{:#x}", v), 2 => format!("{:#b}", v), 3 => { let s = v.to_string(); format!("{}_{}", &s[..1], &s[1..]) } 4 => format!("0x{:04X}", v), 5 => format!("{}u32", v).replace("u32", if v < 1 << 32 { "u32" } else { "" }), _ => v.to_string() }
    }
}
fn val(s: &str) -> u128 {
    let t = s.replace('_', "").replace("u32", "");
    if let Some(h) = t.strip_prefix("0x") { u128::from_str_radix(h, 16).unwrap() } else if let Some(h) = t.strip_prefix("0b") { u128::from_str_radix(h, 2).unwrap() } else { t.parse().unwrap() }
}

// ------------------------------------------------------------------ packets
struct Packet { text: String, ok: bool, why: &'static str, class: u8, id: u8, len: u16, fixed: bool, unsized_inside: bool }
fn doc(c: &mut Ch, bad: &mut Option<&'static str>) -> String {
    if c.rare() { *bad = Some("a doc attribute that is not a comment"); return c.pick(&["#[doc(hidden)] ", "#[doc = 3] ", "#[doc] "]).into(); }
    c.pick(&["", "/// Some text\n", "#[doc = \"x\"] ", "/// a\n/// b\n"]).into()
}
/// the value of the mapping: (text, parses, map type, has a size function, is "none")
fn mapping(c: &mut Ch, ty: &str, may_size: bool) -> (String, bool, Option<String>, bool, bool) {
    let mut o = Vec::new();
    let (mut mt, mut size, mut other, mut ok) = (None, false, false, true);
    let numeric = !ty.contains('[') && !ty.contains('&');
    if c.below(3) != 1 {
        let t = if c.rare() { ty.to_string() } else { c.pick(&["Foo", "FlagsX", "f64", "Option<Foo>", "u16"]).to_string() };
        o.push(format!("map_type = {}", t));
        if mt.is_none() { mt = Some(t); }
    }
    let float = mt.as_deref() == Some("f64") || mt.as_deref() == Some("f32");
    if c.below(3) == 1 && (numeric || !float) { o.push("scale = 1e-2".into()); other = true; }
    if c.below(3) == 1 { o.push("alias = other_name".into()); other = true; }
    if c.below(4) == 1 { o.push("may_fail".into()); }
    if c.below(4) == 1 { o.push("from = Foo::new".into()); }
    if c.below(6) == 1 { o.push("is_valid = Foo::fits".into()); }
    if c.below(6) == 1 { o.push("get_as_ref".into()); }
    if c.below(5) == 1 { o.push("into = Foo::back".into()); }
    if may_size && c.below(2) == 1 { o.push("size_fn = len_of".into()); size = true; }
    if c.rare() { o.push(c.pick(&["bogus", "scale = 1", "alias = 3", "map_type", "12", "is_valid = 5"]).into()); ok = false; }
    if o.len() > 1 && c.below(2) == 1 { let k = c.below(o.len()); o.rotate_left(k); }
    let none = mt.is_none() && !other;
    if mt.is_none() { size = false; }
    (format!("#[{}({})] ", c.pick(&["ubx", "ubx", "map"]), o.join(", ")), ok, mt, size, none)
}
const PRIM: [(&str, usize); 8] = [("u8", 1), ("i8", 1), ("u16", 2), ("i16", 2), ("u32", 4), ("i32", 4), ("f32", 4), ("f64", 8)];
fn packet(c: &mut Ch) -> Packet {
    let mut bad: Option<&'static str> = None;
    // fields
    let n = c.below(7);
    let mut fields = Vec::new();
    let mut total: Option<u128> = Some(0);
    let mut inside = false;
    for i in 0..n {
        let last = i + 1 == n;
        let (mut ty, mut size): (String, Option<u128>) = { let p = c.pick(&PRIM); (p.0.into(), Some(p.1 as u128)) };
        match c.below(5) {
            1 => { let k = c.below(30) as u128 + 1; ty = format!("[u8; {}]", c.int(k)); size = Some(k); }
            2 if last && c.below(2) == 1 => { ty = c.pick(&["&'a [u8]", "&'static str", "[u8; 0]", "&'a [u16]"]).into(); size = None; }
            3 if c.below(6) == 1 => { ty = c.pick(&["&'a [u8]", "&'a str", "[u8; 0]"]).into(); size = None; }
            _ => {}
        }
        if c.rare() {
            bad = Some("an unsupported field type");
            ty = c.pick(&["u64", "i64", "bool", "char", "usize", "[u16; 2]", "[i8; 2]", "[u8; N]", "[u8; 1 + 1]", "[u8; \"2\"]", "(u8,)", "Vec<u8>", "u128", "core::u8", "[[u8; 2]; 2]", "[u8]", "X<u8>", "[u8; 340282366920938463463374607431768211455]"]).into();
            size = Some(1);
        }
        let mut s = doc(c, &mut bad);
        let mut size_fn = false;
        let mut prev_none = true;
        let maps = if c.below(2) == 1 { 1 + c.rare() as usize } else { 0 };
        let mut last_mt = None;
        for _ in 0..maps {
            let (t, ok, mt, sf, none) = mapping(c, &ty, size.is_none());
            if !prev_none { bad = Some("two mappings of one field"); }
            if !ok { bad = Some("a mapping that cannot be read"); }
            s += &t;
            size_fn = sf;
            prev_none = none;
            last_mt = mt;
        }
        if let Some(t) = last_mt { if t == ty { bad = Some("a field mapped to its own type"); } }
        if c.rare() { s += "#[ubx] "; bad = Some("a mapping that cannot be read"); }
        if size.is_none() && !last { inside = true; if !size_fn { bad = Some("a field of variable size that is neither last nor has a size function"); } }
        total = match (total, size) { (Some(a), Some(b)) => Some(a + b), _ => None };
        fields.push(format!("{}{}f{}: {}", s, c.pick(&["", "pub "]), i, ty));
    }
    // header
    let class = c.below(256) as u8;
    let id = c.below(256) as u8;
    let mut fixed = total.is_some();
    let mut len = match total { Some(t) => t, None => c.below(256) as u128 * 7 };
    if c.rare() { fixed = !fixed; bad = Some(if fixed { "a fixed length of fields of variable size" } else { "a maximum length of fields of fixed size" }); }
    if c.rare() {
        let d = c.pick(&[1u128, 65536, 2, 65535, 256]);
        if len + d <= 65535 { len += d; if fixed { bad = Some("a fixed length that is not the sum of the sizes"); } } else { len += d; bad = Some("a length that does not fit 16 bits"); }
    } else if c.rare() && len > 0 { len -= 1; if fixed { bad = Some("a fixed length that is not the sum of the sizes"); } }
    // a length that fits only modulo 65536
    if c.rare() && fixed { fields.push("big: [u8; 65536]".into()); bad = Some("a fixed length that is not the sum of the sizes"); }
    let lk = if fixed { "fixed_payload_len" } else { "max_payload_len" };
    let mut o = vec![format!("class = {}", c.int(class as u128)), format!("id = {}", c.int(id as u128)), format!("{} = {}", lk, c.int(len))];
    match c.below(12) { 1 | 2 => o.push("flags = \"default_for_builder\"".into()), 3 => { o.push("flags = \"\"".into()); if c.below(2) == 1 { o.push("flags = \"default_for_builder\"".into()); } } _ => {} }
    if c.rare() { let k = c.below(3); o.remove(k); bad = Some("class, id or length missing"); }
    if c.rare() {
        let k = c.below(o.len());
        let x = o[k].clone();
        if !x.starts_with("flags") { bad = Some("an option given twice"); }
        // an equal or a different second value
        let x = if c.below(2) == 1 && !x.starts_with("flags") { format!("{} = 0", x.split(' ').next().unwrap()) } else { x };
        o.push(x);
    }
    if c.rare() { o.push(format!("{} = {}", if fixed { "max_payload_len" } else { "fixed_payload_len" }, len)); bad = Some("fixed and maximum length"); }
    if c.rare() { o.push(c.pick(&["bogus = 1", "class", "3", "flags = 1", "flags = \"bogus\"", "id(3)", "name = \"x\"", "a::class = 1"]).into()); bad = Some("an option that does not exist"); }
    if c.rare() {
        let k = c.below(2);
        let key = if k == 0 { "class" } else { "id" };
        if let Some(p) = o.iter().position(|x| x.starts_with(&format!("{} ", key))) {
            o[p] = format!("{} = {}", key, c.pick(&["256", "0x100", "\"1\"", "1.0", "'a'", "true", "65536", "b'a'", "99999999999999999999"]));
            bad = Some("a class or id that is not a byte");
        }
    }
    if c.below(2) == 1 { let k = c.below(o.len()); o.rotate_left(k); }
    if c.below(3) == 1 { o.reverse(); }
    // flags may be given again after an empty list
    if let Some(k) = o.iter().position(|x| x.starts_with("flags") && x != "flags = \"\"") { if o[k + 1..].iter().any(|x| x.starts_with("flags")) { bad = Some("an option given twice"); } }
    let mut attr = format!("#[ubx({})]", o.join(", "));
    if c.rare() { attr = c.pick(&["", "#[ubx]", "#[ubx = 3]", "#[ubx(class = )]", "#[ubxx(class = 1, id = 2, fixed_payload_len = 0)]"]).into(); bad = Some("no readable ubx attribute"); }
    let before = doc(c, &mut bad);
    let mut body = format!("{{ {} }}", fields.join(", "));
    if c.rare() { body = c.pick(&[";", "(u8);", "();"]).into(); bad = Some("a struct without named fields"); }
    let gen = if fields.iter().any(|f| f.contains("'a")) && body.starts_with('{') { "<'a>" } else { "" };
    Packet { text: format!("{}{} {} struct Test{} {}", before, attr, c.pick(&["", "#[derive(Debug)]", "#[repr(C)]"]), gen, body), ok: bad.is_none(), why: bad.unwrap_or(""), class, id, len: len.min(65535) as u16, fixed, unsized_inside: inside }
}
fn lit_int(x: &syn::Expr) -> Option<u128> {
    match x {
        syn::Expr::Lit(l) => if let syn::Lit::Int(i) = &l.lit { i.base10_parse().ok() } else { None },
        syn::Expr::Paren(p) => lit_int(&p.expr),
        syn::Expr::Group(p) => lit_int(&p.expr),
        syn::Expr::Cast(p) => lit_int(&p.expr),
        syn::Expr::Binary(b) => match b.op { syn::BinOp::Shl(_) => Some(lit_int(&b.left)? << lit_int(&b.right)?), syn::BinOp::BitOr(_) => Some(lit_int(&b.left)? | lit_int(&b.right)?), _ => None },
        _ => None,
    }
}
/// `None`, `Some(value)`; None where the expression is not of these forms
fn opt_int(x: &syn::Expr) -> Option<Option<u128>> {
    match x {
        syn::Expr::Path(p) if p.path.is_ident("None") => Some(None),
        syn::Expr::Call(k) if k.args.len() == 1 => Some(Some(lit_int(&k.args[0])?)),
        _ => None,
    }
}
fn check_packet(b: &[u8]) -> Out {
    let p = packet(&mut Ch { b, i: 0 });
    let st: syn::ItemStruct = match syn::parse_str(&p.text) { Ok(x) => x, Err(_) => return Ok("trivial".into()) };
    let mut n = 0;
    for (how, f) in [("receiving", crate::generate_code_for_recv_packet as fn(_, _, _) -> _), ("sending", crate::generate_code_for_send_packet), ("both ways", crate::generate_code_for_recv_send_packet)] {
        let r: Result<syn::Result<TokenStream>, String> = guard(|| f(st.ident.clone(), st.attrs.clone(), st.fields.clone()));
        match (p.ok, r) {
            (false, Ok(Ok(_))) => return e("accepted", format!("a packet definition with {} is accepted for {}: {}", p.why, how, p.text)),
            (true, Ok(Err(x))) => return e("refused", format!("a packet definition that satisfies the rules is refused for {} ({}): {}", how, x, p.text)),
            // what is sent has its field of variable size last
            (true, Err(x)) if !(p.unsized_inside && n > 0) => return e("refused", format!("a packet definition that satisfies the rules is refused for {} ({}): {}", how, x, p.text)),
            (true, Ok(Ok(t))) => {
                let want = [("CLASS", Some(p.class as u128)), ("ID", Some(p.id as u128)), ("MAX_PAYLOAD_LEN", Some(p.len as u128)), ("FIXED_PAYLOAD_LEN", if p.fixed { Some(p.len as u128) } else { None })];
                let file: syn::File = match syn::parse2(t) { Ok(f) => f, Err(x) => return e("unreadable", format!("the code generated from {} cannot be read: {}", p.text, x)) };
                for i in &file.items {
                    let i = match i { syn::Item::Impl(i) => i, _ => continue };
                    for c in &i.items {
                        let c = match c { syn::ImplItem::Const(c) => c, _ => continue };
                        for (k, v) in &want {
                            if c.ident != k { continue; }
                            let got = if *k == "FIXED_PAYLOAD_LEN" { opt_int(&c.expr) } else { lit_int(&c.expr).map(Some) };
                            if let Some(got) = got { if got != *v { return e("carried", format!("{} of {} is {:?} instead of {:?}", k, p.text, got, v)); } }
                        }
                    }
                }
            }
            _ => {}
        }
        n += 1;
    }
    Ok(if p.ok { if p.fixed { "packet fixed".into() } else { "packet max".into() } } else { format!("packet refused: {}", p.why) })
}

// ------------------------------------------------------------------ options of enums and flag sets
struct Ext { text: String, ok: bool, from: u8, rest: u8 }
fn ext(c: &mut Ch, flags: bool) -> Ext {
    let mut o: Vec<&str> = Vec::new();
    match c.below(8) { 0 | 1 | 2 => o.push("from"), 3 | 4 | 5 => o.push(if flags { "from" } else { "from_unchecked" }), 6 => o.push("from_unchecked"), _ => {} }
    if c.below(4) != 1 { o.push("into_raw"); }
    match c.below(if flags { 16 } else { 4 }) { 1 => o.push("rest_error"), 2 => {} _ => o.push("rest_reserved") }
    if c.rare() { o.push(c.pick(&["rest_error", "rest_reserved", "from", "from_unchecked", "into_raw"])); }
    if c.rare() { o.push(c.pick(&["bogus", "from = 1", "\"from\"", "rest", "into", "from(x)", "3", "ubx::from"])); }
    if !o.is_empty() { let k = c.below(o.len()); o.rotate_left(k); }
    if c.below(3) == 1 { o.reverse(); }
    let (mut from, mut rest, mut ok) = (0, 0, true);
    for x in &o {
        match *x {
            "from" => from = 1,
            "from_unchecked" => from = 2,
            "into_raw" => {}
            "rest_reserved" => { if rest != 0 { ok = false; } rest = 1; }
            "rest_error" => { if rest != 0 { ok = false; } rest = 2; }
            _ => ok = false,
        }
    }
    if from == 1 && rest == 2 { ok = false; }
    let mut text = format!("#[ubx({})] ", o.join(", "));
    if c.rare() { text = c.pick(&["", "#[ubx] ", "#[ubx = 1] "]).into(); ok = false; }
    Ext { text, ok, from, rest }
}
fn check_enum(b: &[u8]) -> Out {
    let c = &mut Ch { b, i: 0 };
    let x = ext(c, false);
    let mut bad = if x.ok { None } else { Some("options that are unknown or contradict each other") };
    let mut repr = "#[repr(u8)] ".to_string();
    if c.rare() { repr = c.pick(&["", "#[repr(u16)] ", "#[repr(i8)] ", "#[repr(C)] ", "#[repr(u8, C)] ", "#[repr = \"u8\"] ", "#[repr(\"u8\")] ", "#[repr] ", "#[repr()] ", "#[repr(u8 = 1)] ", "#[repr(align(1))] ", "#[repr(u8(1))] "]).into(); bad = Some("a representation other than u8"); }
    let n = c.below(12);
    let mut vs = Vec::new();
    let mut written = Vec::new();
    for i in 0..n {
        let k = c.below(256) as u128;
        let t = c.int(k);
        if val(&t) != k { return Ok("trivial".into()); }
        written.push((format!("V{}", i), k));
        let mut s = format!("{}V{} = {}", c.pick(&["", "/// doc\n", "#[allow(unused)] "]), i, t);
        if c.rare() {
            s = format!("V{}{}", i, c.pick(&["", "(u8) = 1", " = 256", " = -1", " = 1 + 1", " = \"1\"", " = b'a'", " = 1.0", " = 65537", " {} = 1", " = X", " = (1)", "(u8)", "{ a: u8 }", " = 340282366920938463463374607431768211455"]));
            bad = Some("a variant that is not a plain name with a byte value");
        }
        vs.push(s);
    }
    let text = format!("{}{}enum Test {{ {} }}", if c.below(2) == 1 { repr.clone() + &x.text } else { x.text.clone() + &repr }, c.pick(&["", "/// doc\n", "#[ubx_extend] "]), vs.join(", "));
    let en: syn::ItemEnum = match syn::parse_str(&text) { Ok(x) => x, Err(_) => return Ok("trivial".into()) };
    match (bad, guard(|| crate::extend_enum(en.ident.clone(), en.attrs.clone(), en.variants.clone()))) {
        (Some(w), Ok(Ok(_))) => return e("accepted", format!("an enum with {} is accepted: {}", w, text)),
        (None, Ok(Err(r))) => return e("refused", format!("an enum that satisfies the rules is refused ({}): {}", r, text)),
        // every byte has a variant, yet values are to be checked: refused while generating
        (None, Err(r)) if !(x.from == 2 && x.rest == 1) => return e("refused", format!("an enum that satisfies the rules is refused ({}): {}", r, text)),
        (None, Ok(Ok(t))) => {
            let file: syn::File = match syn::parse2(t) { Ok(f) => f, Err(_) if n == 0 => return Ok("enum empty".into()), Err(r) => return e("unreadable", format!("the code generated from {} cannot be read: {}", text, r)) };
            for i in &file.items {
                let i = match i { syn::Item::Enum(i) if i.ident == "Test" => i, _ => continue };
                let got: Vec<(String, Option<u128>)> = i.variants.iter().map(|v| (v.ident.to_string(), v.discriminant.as_ref().and_then(|d| lit_int(&d.1)))).collect();
                if got.iter().any(|g| g.1.is_none()) { break; }
                for (a, k) in &written {
                    if !got.iter().any(|g| g.0 == *a && g.1 == Some(*k)) { return e("carried", format!("variant {} of {} does not have the value {}: {:?}", a, text, k, got)); }
                }
                for k in 0..256u128 {
                    let w = written.iter().filter(|x| x.1 == k).count();
                    let m = got.iter().filter(|g| g.1 == Some(k)).count();
                    let want = if w == 0 && x.rest == 1 { 1 } else { w };
                    if m != want { return e("carried", format!("{} variants with the value {} instead of {} are generated from {}", m, k, want, text)); }
                }
            }
        }
        _ => {}
    }
    Ok(match bad { None => "enum".into(), Some(w) => format!("enum refused: {}", w) })
}

// ------------------------------------------------------------------ flag sets
struct GenFlags { ty: String, items: Vec<(String, syn::Expr)> }
impl Parse for GenFlags {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        i.call(syn::Attribute::parse_outer)?;
        i.parse::<syn::Visibility>()?;
        i.parse::<syn::Token![struct]>()?;
        i.parse::<syn::Ident>()?;
        i.parse::<syn::Token![:]>()?;
        let ty: syn::Ident = i.parse()?;
        let c;
        syn::braced!(c in i);
        let mut items = Vec::new();
        while !c.is_empty() {
            c.call(syn::Attribute::parse_outer)?;
            c.parse::<syn::Token![const]>()?;
            let n: syn::Ident = c.parse()?;
            c.parse::<syn::Token![=]>()?;
            items.push((n.to_string(), c.parse()?));
            if !c.is_empty() { c.parse::<syn::Token![;]>()?; }
        }
        Ok(GenFlags { ty: ty.to_string(), items })
    }
}
fn check_flags(b: &[u8]) -> Out {
    let c = &mut Ch { b, i: 0 };
    let x = ext(c, true);
    let mut bad = if x.ok { None } else { Some("options that are unknown or contradict each other") };
    if x.rest != 1 { bad = Some("bits that are not reserved"); }
    if x.from == 2 { bad = Some("from_unchecked"); }
    let (mut ty, bits) = c.pick(&[("u8", 8usize), ("u16", 16), ("u32", 32)]);
    if c.rare() { ty = c.pick(&["u64", "i8", "i32", "usize", "u128", "bool", "[u8; 1]", "core::u8", "X"]); bad = Some("a word other than u8, u16 or u32"); }
    let n = c.below(bits.min(12) + 1);
    let mut free: Vec<usize> = (0..bits).collect();
    let mut used: Vec<(String, u128)> = Vec::new();
    let mut vs = Vec::new();
    for i in 0..n {
        if free.is_empty() { break; }
        let k = c.below(free.len());
        let mut v = 1u128 << free.remove(k);
        if c.rare() {
            let w = c.below(5);
            let d = 1u128 << c.below(64);
            v = match w { 0 => 0, 1 => v | d, 2 => 1u128 << bits, 3 if i > 0 => used[c.below(i)].1, 4 => d, _ => v + 3 };
            free.retain(|f| 1u128 << f != v);
        }
        let mut t = c.int(v);
        if val(&t) != v { return Ok("trivial".into()); }
        if c.rare() { t = c.pick(&["1 << 1", "\"1\"", "-1", "18446744073709551616", "true", "1.0"]).into(); bad = Some("a constant that is not an integer"); }
        used.push((format!("F{}", i), v));
        vs.push(format!("{}const F{} = {};", c.pick(&["", "/// doc\n"]), i, t));
    }
    if used.iter().any(|u| !u.1.is_power_of_two() || u.1 >= 1u128 << bits) { bad = Some("a constant that is not one bit of the word"); }
    for i in 0..used.len() { for j in 0..i { if used[i].1 == used[j].1 && bad.is_none() { bad = Some("two constants of the same bit"); } } }
    let mut body = vs.join(" ");
    if c.below(3) == 1 && body.ends_with(';') { body.pop(); }
    let mac = if c.rare() { bad = Some("a macro other than bitflags"); c.pick(&["bitflag", "x::bitflags", "vec"]) } else { "bitflags" };
    let text = format!("{}{}{}! {{ {}{}struct Test: {} {{ {} }} }}", c.pick(&["", "#[ubx_extend_bitflags] "]), x.text, mac, c.pick(&["", "/// doc\n", "#[derive(Default)] "]), c.pick(&["", "pub ", "pub(crate) "]), ty, body);
    let im: syn::ItemMacro = match syn::parse_str(&text) { Ok(x) => x, Err(_) => return Ok("trivial".into()) };
    match (bad, guard(|| crate::extend_bitflags(im.clone()))) {
        (Some(w), Ok(Ok(_))) => return e("accepted", format!("a flag set with {} is accepted: {}", w, text)),
        (None, Ok(Err(r))) => return e("refused", format!("a flag set that satisfies the rules is refused ({}): {}", r, text)),
        (None, Err(r)) => return e("refused", format!("a flag set that satisfies the rules is refused ({}): {}", r, text)),
        (None, Ok(Ok(t))) => {
            let file: syn::File = match syn::parse2(t) { Ok(f) => f, Err(r) => return e("unreadable", format!("the code generated from {} cannot be read: {}", text, r)) };
            for i in &file.items {
                let i = match i { syn::Item::Macro(i) if i.mac.path.is_ident("bitflags") => i, _ => continue };
                let g: GenFlags = match syn::parse2(i.mac.tokens.clone()) { Ok(g) => g, Err(_) => break };
                if g.ty != ty { return e("carried", format!("the word of {} is {}", text, g.ty)); }
                let got: Vec<(String, Option<u128>)> = g.items.iter().map(|(n, x)| (n.clone(), lit_int(x))).collect();
                if got.iter().any(|g| g.1.is_none()) { break; }
                for (a, k) in &used {
                    if !got.iter().any(|g| g.0 == *a && g.1 == Some(*k)) { return e("carried", format!("constant {} of {} does not have the value {}: {:?}", a, text, k, got)); }
                }
                for k in 0..bits {
                    let m = got.iter().filter(|g| g.1 == Some(1 << k)).count();
                    if m != 1 { return e("carried", format!("{} constants for bit {} are generated from {}", m, k, text)); }
                }
                if got.len() != bits { return e("carried", format!("{} constants are generated from {}", got.len(), text)); }
            }
        }
        _ => {}
    }
    Ok(match bad { None => "flags".into(), Some(w) => format!("flags refused: {}", w) })
}

pub fn main() {
    let a = args();
    let n = if a.tier == "thorough" { 1_000_000 } else { 120_000 };
    Runner { args: a }.run(
        n,
        |g, i| {
            let k = ["packet", "packet", "enum", "flags"][(i % 4) as usize];
            let len = 1 + g.below(120);
            let mut b = g.bytes(len);
            // half the definitions with few deviations
            if g.chance(1, 2) { for x in b.iter_mut() { if *x % 41 == 7 && g.chance(3, 4) { *x ^= 1; } } }
            format!("defs {} {}", k, hex(&b))
        },
        |c| {
            let t: Vec<&str> = c.split(' ').collect();
            let b = unhex(t.get(2).unwrap_or(&""));
            match t[1] { "packet" => check_packet(&b), "enum" => check_enum(&b), _ => check_flags(&b) }
        },
    )
}
