%# ublox_derive/src/{types,input}.rs: which definitions the macros accept, and the description they hand on.
%source dtypes
%take struct PackDesc
%take impl PackDesc
%take struct PackHeader
%take enum PayloadLen
%derive enum PayloadLen :: #[derive(Clone, Copy)]
%take impl PayloadLen
%take struct PackField
%derive struct PackField ::
%take struct PackFieldMapDesc
%derive struct PackFieldMapDesc ::
%take struct MapTypeDesc
%derive struct MapTypeDesc ::
%take impl PackFieldMapDesc
%fn PackFieldMapDesc::new | ret=r
        ensures (r.map_type is Some) == (x.map_type is Some), x.map_type is Some ==> r.map_type->0.size_fn == x.map_type->0.size_fn,
%subst PackFieldMapDesc::new
.map(|map_type| { $any }) ==> .map(|map_type: MapType| -> (d: MapTypeDesc) ensures d.size_fn == map_type.size_fn, { $any })
;;
crate::input::PackFieldMap ==> PackFieldMap
;;
quote::format_ident!($a) ==> syn::ident()
%take impl PackField
%only impl PackField = size_fn
%take enum UbxTypeFromFn
%take enum UbxTypeIntoFn
%take enum UbxEnumRestHandling
%derive enum UbxTypeFromFn :: #[derive(Clone, Copy, PartialEq, Eq, Structural)]
%derive enum UbxTypeIntoFn :: #[derive(Clone, Copy, PartialEq, Eq, Structural)]
%derive enum UbxEnumRestHandling :: #[derive(Clone, Copy, PartialEq, Eq, Structural)]
%take enum PacketFlag
%derive enum PacketFlag :: #[derive(Clone, Copy)]
%take struct UbxExtendEnum
%take struct BitFlagsMacro
%take struct BitFlagsMacroItem
%source dinput
%take struct PackFieldMap
%derive struct PackFieldMap ::
%take impl PackFieldMap
%only impl PackFieldMap = is_none
%take struct MapType
%take struct StructFlags
%take impl Parse for PackFieldMap
%insert impl Parse for PackFieldMap
    type V = PackFieldMap;
    open spec fn pv(self) -> PackFieldMap { self }
    open spec fn take(s: Toks) -> Option<(PackFieldMap, Toks)> { match map_read(s, map_start()) { Some(m) => Some((map_end(m), Seq::empty())), None => None } }
%take impl Parse for PacketFlag
%insert impl Parse for PacketFlag
    type V = PacketFlag;
    open spec fn pv(self) -> PacketFlag { self }
    open spec fn take(s: Toks) -> Option<(PacketFlag, Toks)> { if starts(s, "default_for_builder"@) { Some((PacketFlag::DefaultForBuilder, s.skip(1))) } else { None } }
%take impl Parse for StructFlags
%insert impl Parse for StructFlags
    type V = Seq<PacketFlag>;
    open spec fn pv(self) -> Seq<PacketFlag> { self.0@ }
    open spec fn take(s: Toks) -> Option<(Seq<PacketFlag>, Toks)> { match list_of::<PacketFlag, syn::Comma>(s) { Some(l) => Some((l, Seq::empty())), None => None } }
%take impl Parse for BitFlagsAst
%insert impl Parse for BitFlagsAst
    type V = FlagSetDef;
    open spec fn pv(self) -> FlagSetDef { FlagSetDef { ident: self.ident, repr_ty: self.repr_ty, items: self.items@ } }
    open spec fn take(s: Toks) -> Option<(FlagSetDef, Toks)> { flag_set_read(s) }
%take impl Parse for BitFlagsAstConst
%insert impl Parse for BitFlagsAstConst
    type V = BitFlagsAstConst;
    open spec fn pv(self) -> BitFlagsAstConst { self }
    open spec fn take(s: Toks) -> Option<(BitFlagsAstConst, Toks)> { const_read(s) }

%take fn parse_ubx_attr
%take fn extract_item_comment

%take fn field_size_bytes


%prelude
pub open spec fn no_map() -> PackFieldMap { PackFieldMap { map_type: None, scale: None, alias: None, convert_may_fail: false, get_as_ref: false } }
impl PackFieldMap {
    /// #[derive(Default)]
    pub fn default() -> (r: PackFieldMap) ensures r == no_map() { PackFieldMap { map_type: None, scale: None, alias: None, convert_may_fail: false, get_as_ref: false } }
    pub open spec fn none(self) -> bool { self.map_type is None && self.scale is None && self.alias is None }
}

// ---------------------------------------------------------------- the mapping of a field, as written
/// the options read so far: a later one replaces an earlier one of the same name
pub struct MapRead {
    pub ty: Option<Type>, pub scale: Option<syn::LitFloat>, pub alias: Option<Ident>, pub may_fail: bool, pub as_ref: bool,
    pub from: Option<syn::Path>, pub valid: Option<syn::Path>, pub size: Option<syn::Path>, pub into: Option<syn::Expr>,
}
pub open spec fn map_start() -> MapRead {
    MapRead { ty: None, scale: None, alias: None, may_fail: false, as_ref: false, from: None, valid: None, size: None, into: None }
}
/// the options of a mapping without type are not used
pub open spec fn map_end(m: MapRead) -> PackFieldMap {
    PackFieldMap {
        map_type: match m.ty {
            Some(t) => Some(MapType { ty: t, from_fn: syn::toks_of(m.from), is_valid_fn: syn::toks_of(m.valid), into_fn: syn::toks_of(m.into), size_fn: syn::toks_of(m.size) }),
            None => None,
        },
        scale: m.scale, alias: m.alias, convert_may_fail: m.may_fail, get_as_ref: m.as_ref,
    }
}
/// `= value`
pub open spec fn assigned<T: Parse>(s: Toks) -> Option<(T::V, Toks)> { if starts(s, "="@) { T::take(s.skip(1)) } else { None } }
/// one option
pub open spec fn map_option(s: Toks, m: MapRead) -> Option<(MapRead, Toks)> {
    let r = s.skip(1);
    if starts(s, "map_type"@) { match assigned::<Type>(r) { Some((v, q)) => Some((MapRead { ty: Some(v), ..m }, q)), None => None } }
    else if starts(s, "scale"@) { match assigned::<syn::LitFloat>(r) { Some((v, q)) => Some((MapRead { scale: Some(v), ..m }, q)), None => None } }
    else if starts(s, "alias"@) { match assigned::<Ident>(r) { Some((v, q)) => Some((MapRead { alias: Some(v), ..m }, q)), None => None } }
    else if starts(s, "may_fail"@) { Some((MapRead { may_fail: true, ..m }, r)) }
    else if starts(s, "from"@) { match assigned::<syn::Path>(r) { Some((v, q)) => Some((MapRead { from: Some(v), ..m }, q)), None => None } }
    else if starts(s, "is_valid"@) { match assigned::<syn::Path>(r) { Some((v, q)) => Some((MapRead { valid: Some(v), ..m }, q)), None => None } }
    else if starts(s, "size_fn"@) { match assigned::<syn::Path>(r) { Some((v, q)) => Some((MapRead { size: Some(v), ..m }, q)), None => None } }
    else if starts(s, "get_as_ref"@) { Some((MapRead { as_ref: true, ..m }, r)) }
    else if starts(s, "into"@) { match assigned::<syn::Expr>(r) { Some((v, q)) => Some((MapRead { into: Some(v), ..m }, q)), None => None } }
    else { None }
}
pub open spec fn after_comma(s: Toks) -> Toks { if starts(s, ","@) { s.skip(1) } else { s } }
pub open spec fn map_read(s: Toks, m: MapRead) -> Option<MapRead>
    decreases s.len(),
{
    if s.len() == 0 { Some(m) } else {
        match map_option(s, m) {
            Some((n, r)) => if after_comma(r).len() < s.len() { map_read(after_comma(r), n) } else { None },
            None => None,
        }
    }
}
/// the options read so far and the bindings of the loop
pub open spec fn map_now(map: PackFieldMap, ty: Option<Type>, from: Option<syn::Path>, into: Option<syn::Expr>, valid: Option<syn::Path>, size: Option<syn::Path>) -> MapRead {
    MapRead { ty, scale: map.scale, alias: map.alias, may_fail: map.convert_may_fail, as_ref: map.get_as_ref, from, valid, size, into }
}
pub proof fn lemma_map_keys()
    ensures "map_type"@ != "may_fail"@, 
{
    reveal_strlit("map_type"); reveal_strlit("may_fail");
    assert("map_type"@[2] == 'p'); assert("may_fail"@[2] == 'y');
}
// ---------------------------------------------------------------- field sizes
pub open spec fn prim_size(t: syn::TypePath) -> Option<nat> {
    match t {
        syn::TypePath::U8 | syn::TypePath::I8 => Some(1),
        syn::TypePath::U16 | syn::TypePath::I16 => Some(2),
        syn::TypePath::U32 | syn::TypePath::I32 | syn::TypePath::F32 => Some(4),
        syn::TypePath::F64 => Some(8),
        syn::TypePath::Other(_) => None,
    }
}
/// size of a field of this type (None: the type is not supported; Some(None): known only at run time)
pub open spec fn type_size(t: Type) -> Option<Option<nat>> {
    match t {
        Type::Path(p) => match prim_size(p) { Some(n) => Some(Some(n)), None => None },
        Type::Array(a) => if *a.elem == Type::Path(syn::TypePath::U8) && a.len is Lit && a.len->Lit_0.lit is Int && a.len->Lit_0.lit->Int_0.val() <= usize::MAX {
            let n = a.len->Lit_0.lit->Int_0.val();
            if n == 0 { Some(None) } else { Some(Some(n)) }
        } else { None },
        Type::Reference(_) => Some(None),
        Type::Other(_) => None,
    }
}
pub open spec fn size_of_opt(s: Option<NonZeroUsize>) -> Option<nat> { match s { Some(k) => Some(k.n as nat), None => None } }
pub open spec fn sized(f: PackField) -> bool { f.size_bytes is Some }
pub open spec fn has_size_fn(f: PackField) -> bool { f.map.map_type is Some && f.map.map_type->0.size_fn is Some }
/// sum of the sizes, if all are known
pub open spec fn total(f: Seq<PackField>) -> Option<nat>
    decreases f.len(),
{
    if f.len() == 0 { Some(0) } else {
        match (total(f.drop_last()), f.last().size_bytes) { (Some(s), Some(k)) => Some((s + k.n) as nat), _ => None }
    }
}
pub proof fn lemma_total(f: Seq<PackField>, n: int)
    requires 0 <= n < f.len(),
    ensures total(f.take(n + 1)) == (match (total(f.take(n)), f[n].size_bytes) { (Some(s), Some(k)) => Some((s + k.n) as nat), _ => None }),
{
    assert(f.take(n + 1).drop_last() =~= f.take(n));
    assert(f.take(n + 1).last() == f[n]);
}
pub proof fn lemma_total_none(f: Seq<PackField>, n: int)
    requires 0 <= n <= f.len(), total(f.take(n)) is None,
    ensures total(f) is None,
    decreases f.len() - n,
{
    if n < f.len() { lemma_total(f, n); lemma_total_none(f, n + 1); } else { assert(f.take(n) =~= f); }
}

// ---------------------------------------------------------------- the packet header
pub open spec fn is_nv(e: syn::NestedMeta) -> bool { e is Meta && e->Meta_0 is NameValue }
pub open spec fn nv(e: syn::NestedMeta) -> syn::MetaNameValue { e->Meta_0->NameValue_0 }
pub open spec fn int_key(k: Seq<char>) -> bool { k == "class"@ || k == "id"@ || k == "fixed_payload_len"@ || k == "max_payload_len"@ }
/// the options of the header among the first `n` items: the last value given for `k`
pub open spec fn opt_of(e: Seq<syn::NestedMeta>, n: int, k: Seq<char>) -> Option<syn::Lit>
    decreases n,
{
    if n <= 0 { None } else if is_nv(e[n - 1]) && nv(e[n - 1]).path.name() == k { Some(nv(e[n - 1]).lit) } else { opt_of(e, n - 1, k) }
}
pub open spec fn int_of(l: Option<syn::Lit>) -> Option<nat> { match l { Some(syn::Lit::Int(x)) => Some(x.val()), _ => None } }
pub open spec fn flags_of(l: Option<syn::Lit>) -> Option<Seq<PacketFlag>> { match l { Some(syn::Lit::Str(s)) => whole::<StructFlags>(s.toks()), _ => None } }
pub open spec fn flag_list(l: Option<syn::Lit>) -> Seq<PacketFlag> { match flags_of(l) { Some(f) => f, None => Seq::empty() } }
/// option number `n` is acceptable after those before it
pub open spec fn opt_ok(e: Seq<syn::NestedMeta>, n: int) -> bool {
    let k = nv(e[n]).path.name();
    let l = nv(e[n]).lit;
    is_nv(e[n])
    && (int_key(k) || k == "flags"@)
    && (int_key(k) ==> opt_of(e, n, k) is None && l is Int && l->Int_0.val() <= if k == "class"@ || k == "id"@ { 0xff } else { 0xffffint })
    && (k == "flags"@ ==> flag_list(opt_of(e, n, k)).len() == 0 && flags_of(Some(l)) is Some)
}
pub open spec fn opts_ok(e: Seq<syn::NestedMeta>, n: int) -> bool
    decreases n,
{
    n <= 0 || (opts_ok(e, n - 1) && opt_ok(e, n - 1))
}
pub proof fn lemma_opts_ok(e: Seq<syn::NestedMeta>, n: int, m: int)
    requires n <= m, opts_ok(e, m),
    ensures opts_ok(e, n),
    decreases m - n,
{ if n < m { lemma_opts_ok(e, n, m - 1); } }
pub proof fn lemma_keys()
    ensures "class"@ != "id"@, "class"@ != "fixed_payload_len"@, "class"@ != "max_payload_len"@, "class"@ != "flags"@, "id"@ != "fixed_payload_len"@, "id"@ != "max_payload_len"@,
        "id"@ != "flags"@, "fixed_payload_len"@ != "max_payload_len"@, "fixed_payload_len"@ != "flags"@, "max_payload_len"@ != "flags"@,
{
    reveal_strlit("class"); reveal_strlit("id"); reveal_strlit("fixed_payload_len"); reveal_strlit("max_payload_len"); reveal_strlit("flags");
    assert("class"@[0] == 'c'); assert("fixed_payload_len"@[1] == 'i'); assert("flags"@[1] == 'l'); assert("max_payload_len"@[0] == 'm');
    assert("id"@[0] == 'i'); assert("fixed_payload_len"@[0] == 'f'); assert("flags"@[0] == 'f');
}
/// the options written in the #[ubx(..)] attribute
pub open spec fn ubx_list(attrs: Seq<Attribute>) -> Option<Seq<syn::NestedMeta>> {
    match first_named(attrs, "ubx"@) { Some(a) => match a.meta() { Some(syn::Meta::List(l)) => Some(l.nested@), _ => None }, None => None }
}
pub open spec fn header_rule(attrs: Seq<Attribute>) -> bool {
    ubx_list(attrs) is Some && {
        let e = ubx_list(attrs)->0;
        let n = e.len() as int;
        opts_ok(e, n) && opt_of(e, n, "class"@) is Some && opt_of(e, n, "id"@) is Some
        && (opt_of(e, n, "fixed_payload_len"@) is Some) != (opt_of(e, n, "max_payload_len"@) is Some)
    }
}
pub open spec fn header_is(h: PackHeader, attrs: Seq<Attribute>) -> bool {
    let e = ubx_list(attrs)->0;
    let n = e.len() as int;
    int_of(opt_of(e, n, "class"@)) == Some(h.class as nat) && int_of(opt_of(e, n, "id"@)) == Some(h.id as nat)
    && (match h.payload_len {
        PayloadLen::Fixed(x) => int_of(opt_of(e, n, "fixed_payload_len"@)) == Some(x as nat),
        PayloadLen::Max(x) => int_of(opt_of(e, n, "max_payload_len"@)) == Some(x as nat),
    })
    && h.flags@ == flag_list(opt_of(e, n, "flags"@))
}

// ---------------------------------------------------------------- documentation and field attributes
pub open spec fn doc_ok(a: Attribute) -> bool { a.path.name() == "doc"@ ==> (a.meta() is Some && a.meta()->0 is NameValue && a.meta()->0->NameValue_0.lit is Str) }
pub open spec fn docs_ok(a: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < a.len() ==> doc_ok(#[trigger] a[i]) }
/// the mapping written in the attributes of a field (None: not acceptable)
pub open spec fn map_of(a: Seq<Attribute>, n: int) -> Option<PackFieldMap>
    decreases n,
{
    if n <= 0 { Some(no_map()) } else {
        match map_of(a, n - 1) {
            None => None,
            Some(m) => if a[n - 1].path.name() == "doc"@ { Some(m) } else if !m.none() { None } else if a[n - 1].args() is Some { whole::<PackFieldMap>(a[n - 1].args()->0) } else { None },
        }
    }
}
pub proof fn lemma_map_of(a: Seq<Attribute>, n: int, m: int)
    requires n <= m, map_of(a, m) is Some,
    ensures map_of(a, n) is Some,
    decreases m - n,
{ if n < m { lemma_map_of(a, n, m - 1); } }
pub open spec fn field_rule(f: syn::Field) -> bool {
    f.ident is Some && type_size(f.ty) is Some && docs_ok(f.attrs@)
    && map_of(f.attrs@, f.attrs@.len() as int) is Some
    && { let m = map_of(f.attrs@, f.attrs@.len() as int)->0; m.map_type is Some ==> m.map_type->0.ty != f.ty }
}
pub open spec fn written_size_fn(f: syn::Field) -> bool { let m = map_of(f.attrs@, f.attrs@.len() as int)->0; m.map_type is Some && m.map_type->0.size_fn is Some }
pub open spec fn field_is(p: PackField, f: syn::Field) -> bool {
    f.ident == Some(p.name) && p.ty == f.ty && size_of_opt(p.size_bytes) == type_size(f.ty)->0 && has_size_fn(p) == written_size_fn(f)
}
pub open spec fn fields_rule(f: Fields) -> bool { f is Named && forall|i: int| 0 <= i < f->Named_0.named@.len() ==> field_rule(#[trigger] f->Named_0.named@[i]) }
pub open spec fn fields_are(p: Seq<PackField>, f: Fields) -> bool {
    p.len() == f->Named_0.named@.len() && forall|i: int| 0 <= i < p.len() ==> field_is(#[trigger] p[i], f->Named_0.named@[i])
}
/// sum of the sizes of the written fields, if all are known
pub open spec fn written_total(f: Seq<syn::Field>) -> Option<nat>
    decreases f.len(),
{
    if f.len() == 0 { Some(0) } else {
        match (written_total(f.drop_last()), type_size(f.last().ty)) { (Some(s), Some(Some(k))) => Some(s + k), _ => None }
    }
}
pub proof fn lemma_written_total(p: Seq<PackField>, f: Seq<syn::Field>)
    requires p.len() == f.len(), forall|i: int| 0 <= i < p.len() ==> field_is(#[trigger] p[i], f[i]), forall|i: int| 0 <= i < f.len() ==> field_rule(#[trigger] f[i]),
    ensures total(p) == written_total(f),
    decreases p.len(),
{
    if p.len() > 0 {
        assert(field_is(p[p.len() - 1], f[p.len() - 1]));
        assert(field_rule(f[p.len() - 1]));
        assert forall|i: int| 0 <= i < p.len() - 1 implies field_is(#[trigger] p.drop_last()[i], f.drop_last()[i]) by { assert(field_is(p[i], f[i])); }
        lemma_written_total(p.drop_last(), f.drop_last());
    }
}
/// only the last field may be of unknown size without a size function
pub open spec fn written_ends_ok(f: Seq<syn::Field>) -> bool { forall|i: int| 0 <= i < f.len() - 1 ==> (type_size((#[trigger] f[i]).ty) == Some(None::<nat>) ==> written_size_fn(f[i])) }
pub open spec fn ends_ok(f: Seq<PackField>) -> bool { forall|i: int| 0 <= i < f.len() - 1 ==> !(!sized(#[trigger] f[i]) && !has_size_fn(f[i])) }
pub proof fn lemma_ends_ok(p: Seq<PackField>, f: Seq<syn::Field>)
    requires p.len() == f.len(), forall|i: int| 0 <= i < p.len() ==> field_is(#[trigger] p[i], f[i]), forall|i: int| 0 <= i < f.len() ==> field_rule(#[trigger] f[i]),
    ensures ends_ok(p) == written_ends_ok(f),
{
    assert forall|i: int| 0 <= i < p.len() implies (!sized(#[trigger] p[i]) && !has_size_fn(p[i])) == (type_size(f[i].ty) == Some(None::<nat>) && !written_size_fn(f[i])) by {
        assert(field_is(p[i], f[i])); assert(field_rule(f[i]));
    }
    if ends_ok(p) { assert forall|i: int| 0 <= i < f.len() - 1 implies (type_size((#[trigger] f[i]).ty) == Some(None::<nat>) ==> written_size_fn(f[i])) by { let _ = p[i]; } }
    if written_ends_ok(f) { assert forall|i: int| 0 <= i < p.len() - 1 implies !(!sized(#[trigger] p[i]) && !has_size_fn(p[i])) by { let _ = f[i]; } }
}
/// everything a packet definition has to satisfy
pub open spec fn packet_rule(attrs: Seq<Attribute>, fields: Fields) -> bool {
    let f = fields->Named_0.named@;
    header_rule(attrs) && docs_ok(attrs) && fields_rule(fields)
    && written_ends_ok(f)
    && {
        let e = ubx_list(attrs)->0;
        // a fixed length is the sum of the sizes; a maximum length goes with a size known only at run time
        match opt_of(e, e.len() as int, "fixed_payload_len"@) {
            Some(l) => written_total(f) == int_of(Some(l)),
            None => written_total(f) is None,
        }
    }
}
%prelude
pub open spec fn deref_all(s: Seq<&PackField>) -> Seq<PackField> { Seq::new(s.len(), |i: int| *s[i]) }
pub open spec fn rev(s: Seq<PackField>) -> Seq<PackField> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub open spec fn but_last(s: Seq<PackField>) -> Seq<PackField> { if s.len() == 0 { s } else { s.drop_last() } }
/// `iter()`
pub fn all_of(f: &Vec<PackField>) -> (r: Vec<&PackField>) ensures deref_all(r@) =~= f@, {
    let mut v: Vec<&PackField> = Vec::new();
    let mut i = 0;
    while i < f.len() invariant i <= f.len(), v@.len() == i, deref_all(v@) =~= f@.take(i as int), decreases f.len() - i, {
        let ghost v0 = v@;
        v.push(&f[i]);
        proof { assert forall|k: int| 0 <= k < i + 1 implies deref_all(v@)[k] == f@.take(i + 1)[k] by { if k < i { assert(deref_all(v0)[k] == f@.take(i as int)[k]); } } }
        i += 1;
    }
    v
}
/// `iter().rev().skip(1)`
pub fn rev_skip1(f: &Vec<PackField>) -> (r: Vec<&PackField>) ensures deref_all(r@) =~= rev(but_last(f@)), {
    let mut v: Vec<&PackField> = Vec::new();
    if f.len() == 0 { return v; }
    let mut i = f.len() - 1;
    while i > 0 invariant i < f.len(), deref_all(v@) =~= rev(f@.subrange(i as int, f.len() - 1)), decreases i, {
        let ghost v0 = v@;
        let ghost a = rev(f@.subrange(i as int, f.len() - 1));
        i -= 1;
        v.push(&f[i]);
        proof { let b = rev(f@.subrange(i as int, f.len() - 1)); assert forall|k: int| 0 <= k < b.len() implies deref_all(v@)[k] == b[k] by { if k < a.len() { assert(deref_all(v0)[k] == a[k]); } } }
    }
    proof { assert(f@.subrange(0, f.len() - 1) =~= but_last(f@)); }
    v
}
/// `iter().rev().skip(1).find(|f| f.size_bytes.is_none() && f.size_fn().is_none())`
pub fn find_unsized<'a>(f: &'a Vec<PackField>) -> (r: Option<&'a PackField>)
    ensures r is None <==> ends_ok(f@),
{
    if f.len() == 0 { return None; }
    let mut i = f.len() - 1;
    while i > 0
        invariant i < f.len(), forall|k: int| i <= k < f@.len() - 1 ==> !(!sized(#[trigger] f@[k]) && !has_size_fn(f@[k])),
        decreases i,
    {
        i -= 1;
        if f[i].size_bytes.is_none() && f[i].size_fn().is_none() { return Some(&f[i]); }
    }
    None
}
/// a panic of a macro is a compile error
pub trait OrReject<T> { fn or_reject(self) -> T; }
impl<T> OrReject<T> for Option<T> {
    fn or_reject(self) -> (r: T) ensures self == Some(r), { match self { Some(x) => x, None => reject() } }
}
pub proof fn lemma_total_cons(x: PackField, t: Seq<PackField>)
    ensures total(seq![x] + t) == (match (total(t), x.size_bytes) { (Some(s), Some(k)) => Some((s + k.n) as nat), _ => None }),
    decreases t.len(),
{
    let u = seq![x] + t;
    if t.len() == 0 { assert(u.drop_last() =~= Seq::<PackField>::empty()); assert(total(u.drop_last()) == Some(0nat)); assert(u.last() == x); }
    else { lemma_total_cons(x, t.drop_last()); assert(u.drop_last() =~= seq![x] + t.drop_last()); assert(u.last() == t.last()); }
}
pub proof fn lemma_total_rev(s: Seq<PackField>)
    ensures total(rev(s)) == total(s),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_total_rev(s.drop_last());
        lemma_total_cons(s.last(), rev(s.drop_last()));
        assert(rev(s) =~= seq![s.last()] + rev(s.drop_last()));
    } else { assert(rev(s) =~= s); }
}
%gsubst
self.fields.iter().rev().skip(1) ==> rev_skip1(&self.fields)
;;
fields.iter().rev().skip(1).find(|f| f.size_bytes.is_none() && f.size_fn().is_none()) ==> find_unsized(&fields)
;;
self.fields.iter() ==> all_of(&self.fields)
;;
.expect($m) ==> .or_reject()
%only impl PackDesc = packet_payload_size packet_payload_size_except_last_field fields_size
%fn PackDesc::packet_payload_size | ret=r
        ensures match r { Some(n) => total(self.fields@) == Some(n as nat), None => total(self.fields@) is None },
%fn PackDesc::packet_payload_size_except_last_field | ret=r
        ensures match r { Some(n) => total(but_last(self.fields@)) == Some(n as nat), None => total(but_last(self.fields@)) is None },
%start PackDesc::packet_payload_size_except_last_field
        proof { lemma_total_rev(but_last(self.fields@)); }
%fn PackDesc::fields_size | ret=r
        ensures match r { Some(n) => total(deref_all(iter@)) == Some(n as nat), None => total(deref_all(iter@)) is None },
%start PackDesc::fields_size
        let ghost all = deref_all(iter@);
        proof { assert(all.take(0) =~= Seq::<PackField>::empty()); }
%subst PackDesc::fields_size
<'a, I: Iterator<Item = &'a PackField>>(iter: I) ==> (iter: Vec<&PackField>)
%loop PackDesc::fields_size 0 for it
            invariant all == deref_all(iter@), 0 <= it.index@ <= all.len(), total(all.take(it.index@)) == Some(ret as nat),
%loopstart PackDesc::fields_size 0
            proof {
                assert(*f == all[it.index@]);
                lemma_total(all, it.index@);
                if f.size_bytes is None { lemma_total_none(all, it.index@ + 1); }
            }
%loopafter PackDesc::fields_size 0
        proof { assert(all.take(all.len() as int) =~= all); }
%fn PayloadLen::fixed | ret=r
        ensures r == (match *self { PayloadLen::Fixed(n) => Some(n), PayloadLen::Max(_) => None }),
%fn PackField::size_fn | ret=r
        ensures (r is Some) == has_size_fn(*self),
%subst PackField::size_fn
.and_then(|m| m.size_fn.as_ref()) ==> .and_then(|m: &MapTypeDesc| -> (o: Option<&TokenStream>) ensures (o is Some) == (m.size_fn is Some), { m.size_fn.as_ref() })
%fn PackFieldMap::is_none | ret=r
        ensures r == self.none(),
%fn field_size_bytes | ret=r
        ensures match r { Ok(s) => type_size(*ty) == Some(size_of_opt(s)), Err(_) => type_size(*ty) is None },
%loop field_size_bytes 0 for it
            invariant true,
%loop parse_bitflags 0 for it
            invariant true,
%fn extract_item_comment | ret=r
        ensures (r is Ok) == docs_ok(attrs@),
%loop extract_item_comment 0 for it
            invariant forall|i: int| 0 <= i < it.index@ ==> doc_ok(#[trigger] attrs@[i]), 0 <= it.index@ <= attrs@.len(),
%fn parse_ubx_attr | ret=r
        ensures (r is Ok) == header_rule(attrs@), r is Ok ==> header_is(r->Ok_0, attrs@),
%start parse_ubx_attr
        proof { lemma_keys(); }
%loop parse_ubx_attr 0 for it
            invariant ubx_list(attrs@) == Some(meta.nested@), 0 <= it.index@ <= meta.nested@.len(), opts_ok(meta.nested@, it.index@),
                match class { Some(x) => int_of(opt_of(meta.nested@, it.index@, "class"@)) == Some(x as nat), None => opt_of(meta.nested@, it.index@, "class"@) is None },
                match id { Some(x) => int_of(opt_of(meta.nested@, it.index@, "id"@)) == Some(x as nat), None => opt_of(meta.nested@, it.index@, "id"@) is None },
                match fixed_payload_len { Some(x) => int_of(opt_of(meta.nested@, it.index@, "fixed_payload_len"@)) == Some(x as nat), None => opt_of(meta.nested@, it.index@, "fixed_payload_len"@) is None },
                match max_payload_len { Some(x) => int_of(opt_of(meta.nested@, it.index@, "max_payload_len"@)) == Some(x as nat), None => opt_of(meta.nested@, it.index@, "max_payload_len"@) is None },
                flags@ == flag_list(opt_of(meta.nested@, it.index@, "flags"@)),
%loopstart parse_ubx_attr 0
            proof {
                lemma_keys();
                if opts_ok(meta.nested@, meta.nested@.len() as int) { lemma_opts_ok(meta.nested@, it.index@ + 1, meta.nested@.len() as int); }
            }
%subst parse_ubx_attr
my_flags.0.into_iter().collect() ==> my_flags.0
%take fn parse_fields
%take fn parse_packet_description
%take fn parse_ubx_extend_attrs
%take fn parse_ubx_enum_type
%fn parse_fields | ret=r | attr=#[verifier::loop_isolation(false)]
        ensures (r is Ok) == fields_rule(fields), r is Ok ==> fields_are(r->Ok_0@, fields) && total(r->Ok_0@) == written_total(fields->Named_0.named@) && ends_ok(r->Ok_0@) == written_ends_ok(fields->Named_0.named@),
%start parse_fields
        let ghost written = if fields is Named { fields->Named_0.named@ } else { Seq::empty() };
        let ghost fs = fields;
%loop parse_fields 0 for it
            invariant 0 <= it.index@ <= written.len(), it.seq() == written, ret@.len() == it.index@, fs is Named, written == fs->Named_0.named@,
                forall|i: int| 0 <= i < it.index@ ==> field_rule(#[trigger] written[i]) && field_is(ret@[i], written[i]),
%loopstart parse_fields 0
            let ghost wf = written[it.index@];
            proof { assert(f == wf); assert(fields_rule(fs) ==> field_rule(wf)); }
%loop parse_fields 1 for jt
            invariant
                fs is Named, written == fs->Named_0.named@, fields_rule(fs) ==> field_rule(wf), jt.seq() == wf.attrs@, 
                0 <= jt.index@ <= wf.attrs@.len(), map_of(wf.attrs@, jt.index@) == Some(map),
%loopstart parse_fields 1
            proof { assert(a == wf.attrs@[jt.index@]); if map_of(wf.attrs@, wf.attrs@.len() as int) is Some { lemma_map_of(wf.attrs@, jt.index@ + 1, wf.attrs@.len() as int); } }
%loopafter parse_fields 0
        proof { lemma_written_total(ret@, written); lemma_ends_ok(ret@, written); }
%fn parse_packet_description | ret=r
        ensures (r is Ok) == packet_rule(attrs@, fields),
            r is Ok ==> header_is(r->Ok_0.header, attrs@) && fields_are(r->Ok_0.fields@, fields),
%take struct BitFlagsAst
%take struct BitFlagsAstConst
%take fn parse_bitflags
%source doutput
%take fn generate_code_to_extend_bitflags
%source dlib
%take fn generate_code_for_recv_packet
%take fn generate_code_for_send_packet
%take fn generate_code_for_recv_send_packet
%take fn extend_enum
%take fn extend_bitflags
%prelude
// ---------------------------------------------------------------- options of enums and flag sets
/// the options among the first `n` items (None: not acceptable)
pub open spec fn ext(e: Seq<syn::NestedMeta>, n: int) -> Option<(Option<UbxTypeFromFn>, Option<UbxTypeIntoFn>, Option<UbxEnumRestHandling>)>
    decreases n,
{
    if n <= 0 { Some((None, None, None)) } else {
        match ext(e, n - 1) {
            None => None,
            Some((f, i, r)) => match e[n - 1] {
                syn::NestedMeta::Meta(syn::Meta::Path(p)) =>
                    if p.name() == "from"@ { Some((Some(UbxTypeFromFn::From), i, r)) }
                    else if p.name() == "into_raw"@ { Some((f, Some(UbxTypeIntoFn::Raw), r)) }
                    else if p.name() == "from_unchecked"@ { Some((Some(UbxTypeFromFn::FromUnchecked), i, r)) }
                    else if p.name() == "rest_reserved"@ && r is None { Some((f, i, Some(UbxEnumRestHandling::Reserved))) }
                    else if p.name() == "rest_error"@ && r is None { Some((f, i, Some(UbxEnumRestHandling::ErrorProne))) }
                    else { None },
                _ => None,
            },
        }
    }
}
pub proof fn lemma_ext(e: Seq<syn::NestedMeta>, n: int, m: int)
    requires n <= m, ext(e, m) is Some,
    ensures ext(e, n) is Some,
    decreases m - n,
{ if n < m { lemma_ext(e, n, m - 1); } }
pub proof fn lemma_ext_keys()
    ensures "from"@ != "into_raw"@, "from"@ != "from_unchecked"@, "from"@ != "rest_reserved"@, "from"@ != "rest_error"@, "into_raw"@ != "from_unchecked"@,
        "into_raw"@ != "rest_reserved"@, "into_raw"@ != "rest_error"@, "from_unchecked"@ != "rest_reserved"@, "from_unchecked"@ != "rest_error"@, "rest_reserved"@ != "rest_error"@,
{
    reveal_strlit("from"); reveal_strlit("into_raw"); reveal_strlit("from_unchecked"); reveal_strlit("rest_reserved"); reveal_strlit("rest_error");
    assert("from"@[0] == 'f'); assert("into_raw"@[0] == 'i'); assert("from_unchecked"@[0] == 'f'); assert("rest_reserved"@[0] == 'r'); assert("rest_error"@[0] == 'r');
    assert("rest_error"@.len() == 10); assert("rest_reserved"@.len() == 13); assert("from"@.len() == 4); assert("from_unchecked"@.len() == 14);
}
pub open spec fn ext_of(attrs: Seq<Attribute>) -> Option<(Option<UbxTypeFromFn>, Option<UbxTypeIntoFn>, Option<UbxEnumRestHandling>)> {
    match ubx_list(attrs) {
        None => None,
        Some(e) => match ext(e, e.len() as int) {
            Some((Some(UbxTypeFromFn::From), _, Some(UbxEnumRestHandling::ErrorProne))) => None,
            r => r,
        },
    }
}
// ---------------------------------------------------------------- enums
pub open spec fn repr_rule(attrs: Seq<Attribute>) -> bool {
    match first_named(attrs, "repr"@) {
        Some(a) => match a.meta() {
            Some(syn::Meta::List(l)) => l.nested@.len() == 1 && (match l.nested@[0] { syn::NestedMeta::Meta(syn::Meta::Path(p)) => p.name() == "u8"@, _ => false }),
            _ => false,
        },
        None => false,
    }
}
pub open spec fn variant_code(v: syn::Variant) -> Option<nat> {
    match v.discriminant { Some((_, syn::Expr::Lit(l))) => (match l.lit { syn::Lit::Int(i) => Some(i.val()), _ => None }), _ => None }
}
pub open spec fn variant_rule(v: syn::Variant) -> bool { v.fields is Unit && variant_code(v) is Some && variant_code(v)->0 <= 0xff }
pub open spec fn enum_rule(attrs: Seq<Attribute>, v: Seq<syn::Variant>) -> bool {
    ext_of(attrs) is Some && repr_rule(attrs) && forall|i: int| 0 <= i < v.len() ==> variant_rule(#[trigger] v[i])
}
pub open spec fn enum_is(d: UbxExtendEnum, attrs: Seq<Attribute>, v: Seq<syn::Variant>) -> bool {
    (d.from_fn, d.into_fn, d.rest_handling) == ext_of(attrs)->0 && d.repr == Type::Path(syn::TypePath::U8) && d.variants@.len() == v.len()
    && variants_are(d.variants@, v, v.len() as int)
}
pub open spec fn variants_are(d: Seq<(Ident, u8)>, v: Seq<syn::Variant>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] d[i]).0 == v[i].ident && variant_code(v[i]) == Some(d[i].1 as nat) }
pub open spec fn variants_rule(v: Seq<syn::Variant>, n: int) -> bool { forall|i: int| 0 <= i < n ==> variant_rule(#[trigger] v[i]) }
pub open spec fn consts_are(c: Seq<BitFlagsMacroItem>, a: Seq<BitFlagsAstConst>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] c[i]).name == a[i].name && c[i].value == a[i].value.val() }
/// `into_iter().filter(..).collect()` over the attributes handed on
#[verifier::external_body]
pub fn filter_attrs(a: Vec<Attribute>) -> Vec<Attribute> { unimplemented!() }

// ---------------------------------------------------------------- flag sets
/// `attributes visibility struct Name: Type { constants }`
pub struct FlagSetDef { pub ident: Ident, pub repr_ty: Type, pub items: Seq<BitFlagsAstConst> }
pub open spec fn flag_set_read(s0: Toks) -> Option<(FlagSetDef, Toks)> {
    match syn::attrs_of(s0) { None => None, Some((_, s1)) =>
    match syn::Visibility::take(s1) { None => None, Some((_, s2)) =>
    if !starts(s2, "struct"@) { None } else {
    match Ident::take(s2.skip(1)) { None => None, Some((ident, s3)) =>
    if !starts(s3, ":"@) { None } else {
    match Type::take(s3.skip(1)) { None => None, Some((repr_ty, s4)) =>
    match syn::brace_of(s4) { None => None, Some((c, s5)) =>
    match list_of::<BitFlagsAstConst, syn::Semi>(c) { None => None, Some(items) => Some((FlagSetDef { ident, repr_ty, items }, s5)) } } } } } } } }
}
/// `attributes const NAME = literal`
pub open spec fn const_read(s0: Toks) -> Option<(BitFlagsAstConst, Toks)> {
    match syn::attrs_of(s0) { None => None, Some((attrs, s1)) =>
    if !starts(s1, "const"@) { None } else {
    match Ident::take(s1.skip(1)) { None => None, Some((name, s2)) =>
    if !starts(s2, "="@) { None } else {
    match syn::LitInt::take(s2.skip(1)) { None => None, Some((value, s3)) =>
    Some((BitFlagsAstConst { attrs, _const_token: syn::KwConst, name, _eq_token: syn::Eq, value }, s3)) } } } } }
}
pub open spec fn word_bits(t: Type) -> Option<nat> {
    match t { Type::Path(syn::TypePath::U8) => Some(8), Type::Path(syn::TypePath::U16) => Some(16), Type::Path(syn::TypePath::U32) => Some(32), _ => None }
}
/// what the flag set definition consists of, if it can be read
pub open spec fn flag_ast(m: syn::ItemMacro) -> Option<FlagSetDef> { whole::<BitFlagsAst>(m.mac.tokens.toks()) }
pub open spec fn flags_rule(m: syn::ItemMacro) -> bool {
    ext_of(m.attrs@) is Some && flag_ast(m) is Some && word_bits(flag_ast(m)->0.repr_ty) is Some
    && forall|i: int| 0 <= i < flag_ast(m)->0.items.len() ==> (#[trigger] flag_ast(m)->0.items[i]).value.val() <= 0xffff_ffff_ffff_ffff
}
pub open spec fn flags_are(d: BitFlagsMacro, m: syn::ItemMacro) -> bool {
    let a = flag_ast(m)->0;
    (d.from_fn, d.into_fn, d.rest_handling) == ext_of(m.attrs@)->0 && d.repr_ty == a.repr_ty && word_bits(a.repr_ty) == Some(d.nbits as nat) && d.name == a.ident
    && d.consts@.len() == a.items.len() && consts_are(d.consts@, a.items, a.items.len() as int)
}
pub open spec fn one_bit(i: int) -> u64 { 1u64 << (i as u64) }
/// the declared constants are distinct single bits of the word
pub open spec fn bits_rule(d: BitFlagsMacro) -> bool {
    (forall|i: int| 0 <= i < d.consts@.len() ==> is_bit((#[trigger] d.consts@[i]).value, d.nbits as int))
    && forall|i: int, j: int| 0 <= i < j < d.consts@.len() ==> (#[trigger] d.consts@[i]).value != (#[trigger] d.consts@[j]).value
}
pub open spec fn flags_gen_rule(d: BitFlagsMacro) -> bool {
    d.rest_handling == Some(UbxEnumRestHandling::Reserved) && d.from_fn != Some(UbxTypeFromFn::FromUnchecked) && bits_rule(d)
}
use std::collections::HashSet;
pub assume_specification [u64::checked_shl] (x: u64, n: u32) -> (r: Option<u64>) ensures r == (if n < 64 { Some(x << (n as u64)) } else { None });
use syn::Variant;
broadcast use vstd::std_specs::hash::group_hash_axioms;
/// `iter().find(|x| x.value == v)`
pub fn const_find<'a>(c: &'a Vec<BitFlagsMacroItem>, v: u64) -> (r: Option<&'a BitFlagsMacroItem>)
    ensures r is Some == (exists|i: int| 0 <= i < c@.len() && (#[trigger] c@[i]).value == v),
{
    let mut i = 0;
    while i < c.len()
        invariant i <= c.len(), forall|k: int| 0 <= k < i ==> (#[trigger] c@[k]).value != v,
        decreases c.len() - i,
    {
        if c[i].value == v { return Some(&c[i]); }
        i += 1;
    }
    None
}
/// `iter().map(|x| x.value).collect()`
pub fn value_set(c: &Vec<BitFlagsMacroItem>) -> (r: HashSet<u64>)
    ensures r@.finite(), forall|v: u64| #[trigger] r@.contains(v) <==> (exists|i: int| 0 <= i < c@.len() && (#[trigger] c@[i]).value == v),
{
    let mut s: HashSet<u64> = HashSet::new();
    let mut i = 0;
    while i < c.len()
        invariant i <= c.len(), s@.finite(), forall|v: u64| #[trigger] s@.contains(v) <==> (exists|k: int| 0 <= k < i && (#[trigger] c@[k]).value == v),
        decreases c.len() - i,
    {
        let ghost s0 = s@;
        s.insert(c[i].value);
        proof {
            assert forall|v: u64| #[trigger] s@.contains(v) implies (exists|k: int| 0 <= k < i + 1 && (#[trigger] c@[k]).value == v) by {
                if s0.contains(v) { let k = choose|k: int| 0 <= k < i && (#[trigger] c@[k]).value == v; assert(c@[k].value == v); } else { assert(c@[i as int].value == v); }
            }
            assert forall|v: u64| (exists|k: int| 0 <= k < i + 1 && (#[trigger] c@[k]).value == v) implies #[trigger] s@.contains(v) by {
                let k = choose|k: int| 0 <= k < i + 1 && (#[trigger] c@[k]).value == v;
                if k < i { assert(s0.contains(v)); }
            }
        }
        i += 1;
    }
    s
}
pub open spec fn const_values(d: BitFlagsMacro) -> Seq<u64> { Seq::new(d.consts@.len(), |i: int| d.consts@[i].value) }
pub open spec fn is_bit(v: u64, n: int) -> bool { exists|b: int| 0 <= b < n && v == #[trigger] one_bit(b) }
pub proof fn lemma_next_bit(d: BitFlagsMacro, n: int)
    requires n >= 0,
    ensures forall|v: u64| #[trigger] is_bit(v, n + 1) <==> (is_bit(v, n) || v == one_bit(n)),
        forall|v: u64| #[trigger] const_values(d).contains(v) <==> exists|i: int| 0 <= i < d.consts@.len() && (#[trigger] d.consts@[i]).value == v,
{
    assert forall|v: u64| #[trigger] is_bit(v, n + 1) implies (is_bit(v, n) || v == one_bit(n)) by {
        let b = choose|b: int| 0 <= b < n + 1 && v == #[trigger] one_bit(b);
        if b < n { assert(is_bit(v, n)); }
    }
    assert forall|v: u64| (is_bit(v, n) || v == one_bit(n)) implies #[trigger] is_bit(v, n + 1) by {
        if is_bit(v, n) { let b = choose|b: int| 0 <= b < n && v == #[trigger] one_bit(b); assert(0 <= b < n + 1); }
    }
    let vals = const_values(d);
    assert forall|v: u64| (exists|i: int| 0 <= i < d.consts@.len() && (#[trigger] d.consts@[i]).value == v) implies #[trigger] vals.contains(v) by {
        let i = choose|i: int| 0 <= i < d.consts@.len() && (#[trigger] d.consts@[i]).value == v;
        assert(vals[i] == v);
    }
    assert forall|v: u64| #[trigger] vals.contains(v) implies (exists|i: int| 0 <= i < d.consts@.len() && (#[trigger] d.consts@[i]).value == v) by {
        let i = choose|i: int| 0 <= i < vals.len() && vals[i] == v;
        assert(d.consts@[i].value == v);
    }
}
/// as many known flags as constants: the constants are distinct and each is one bit
pub proof fn lemma_known(d: BitFlagsMacro, known: Set<u64>)
    requires known.finite(), forall|v: u64| #[trigger] known.contains(v) <==> (const_values(d).contains(v) && is_bit(v, d.nbits as int)),
    ensures (known.len() == d.consts@.len()) == bits_rule(d),
{
    let vals = const_values(d);
    let s = vals.to_set();
    vals.lemma_cardinality_of_set();
    assert(s.finite());
    assert(known.subset_of(s)) by { assert forall|v: u64| known.contains(v) implies s.contains(v) by { } }
    vstd::set_lib::lemma_len_subset(known, s);
    if bits_rule(d) {
        assert(vals.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < vals.len() && 0 <= j < vals.len() && i != j implies vals[i] != vals[j] by {
            if i < j { assert(d.consts@[i].value != d.consts@[j].value); } else { assert(d.consts@[j].value != d.consts@[i].value); } } }
        vals.unique_seq_to_set();
        assert(known =~= s) by { assert forall|v: u64| s.contains(v) implies known.contains(v) by {
            let i = choose|i: int| 0 <= i < vals.len() && vals[i] == v;
            assert(d.consts@[i].value == v);
        } }
    }
    if known.len() == d.consts@.len() {
        vals.lemma_no_dup_set_cardinality();
        vstd::set_lib::lemma_subset_equality(known, s);
        assert forall|i: int| 0 <= i < d.consts@.len() implies is_bit((#[trigger] d.consts@[i]).value, d.nbits as int) by {
            assert(vals[i] == d.consts@[i].value);
            assert(s.contains(vals[i]));
            assert(known.contains(vals[i]));
        }
        assert forall|i: int, j: int| 0 <= i < j < d.consts@.len() implies (#[trigger] d.consts@[i]).value != (#[trigger] d.consts@[j]).value by { assert(vals[i] != vals[j]); }
    }
}
// what is generated is not specified here (the expanded crate is, in the other units)
#[verifier::external_body]
pub fn generate_types_for_packet(d: &PackDesc) -> TokenStream { unimplemented!() }
#[verifier::external_body]
pub fn generate_recv_code_for_packet(d: &PackDesc) -> TokenStream { unimplemented!() }
#[verifier::external_body]
pub fn generate_send_code_for_packet(d: &PackDesc) -> TokenStream { unimplemented!() }
#[verifier::external_body]
pub fn generate_code_to_extend_enum(d: &UbxExtendEnum) -> TokenStream { unimplemented!() }
%gsubst
bitflags.consts.iter().find(|x| x.value == flag_bit) ==> const_find(&bitflags.consts, flag_bit)
;;
let set = user_flags.difference(&known_flags); ==>
;;
bitflags.consts.iter().map(|x| x.value).collect() ==> value_set(&bitflags.consts)
;;
= list.nested[0] ==> = *vec_first(&list.nested)
;;
size * 8 ==> *size * 8
;;
attrs.into_iter().filter($f).collect() ==> filter_attrs(attrs)
;;
quote! {} ==> syn::ts()
;;
quote! { $any } ==> syn::ts()
;;
format_ident!($a) ==> syn::ident()
;;
format!($a) ==> syn::msg()
;;
assert_eq!($a) ==> ()
;;
Token![$a] ==> syn::Tok
;;
syn::Error::new($a) ==> syn::err()
;;
syn::token::Brace ==> syn::Tok
;;
input::parse_packet_description ==> parse_packet_description
;;
input::parse_ubx_enum_type ==> parse_ubx_enum_type
;;
input::parse_bitflags ==> parse_bitflags
;;
output::generate_types_for_packet ==> generate_types_for_packet
;;
output::generate_send_code_for_packet ==> generate_send_code_for_packet
;;
output::generate_recv_code_for_packet ==> generate_recv_code_for_packet
;;
output::generate_code_to_extend_enum ==> generate_code_to_extend_enum
;;
output::generate_code_to_extend_bitflags ==> generate_code_to_extend_bitflags
%fn parse_ubx_extend_attrs | ret=r
        ensures match r { Ok(t) => ext_of(attrs@) == Some(t), Err(_) => ext_of(attrs@) is None },
%start parse_ubx_extend_attrs
        proof { lemma_ext_keys(); }
%loop parse_ubx_extend_attrs 0 for it
            invariant Some(it.seq()) == ubx_list(attrs@), 0 <= it.index@ <= it.seq().len(), ext(it.seq(), it.index@) == Some((from_fn, into_fn, rest_handling)),
%loopstart parse_ubx_extend_attrs 0
            proof { lemma_ext_keys(); let e = ubx_list(attrs@)->0; assert(item == e[it.index@]); if ext(e, e.len() as int) is Some { lemma_ext(e, it.index@ + 1, e.len() as int); } }
%fn parse_ubx_enum_type | ret=r | attr=#[verifier::loop_isolation(false)]
        ensures (r is Ok) == enum_rule(attrs@, in_variants@), r is Ok ==> enum_is(r->Ok_0, attrs@, in_variants@),
%loop parse_ubx_enum_type 0 for it
            invariant 0 <= it.index@ <= it.seq().len(), it.seq() == in_variants@, variants@.len() == it.index@,
                variants_rule(in_variants@, it.index@), variants_are(variants@, in_variants@, it.index@),
%loopstart parse_ubx_enum_type 0
            let ghost wv = in_variants@[it.index@];
            proof { assert(var == wv); }
%fn parse_bitflags | ret=r | attr=#[verifier::loop_isolation(false)]
        ensures (r is Ok) == flags_rule(mac), r is Ok ==> flags_are(r->Ok_0, mac),
%loop parse_bitflags 1 for it
            invariant 0 <= it.index@ <= it.seq().len(), it.seq() == flag_ast(mac)->0.items, consts@.len() == it.index@,
                forall|i: int| 0 <= i < it.index@ ==> (#[trigger] flag_ast(mac)->0.items[i]).value.val() <= 0xffff_ffff_ffff_ffff, consts_are(consts@, flag_ast(mac)->0.items, it.index@),
%loopstart parse_bitflags 1
            proof { assert(item == flag_ast(mac)->0.items[it.index@]); }
%fn generate_code_to_extend_bitflags | ret=r
        requires word_bits(bitflags.repr_ty) == Some(bitflags.nbits as nat),
        ensures (r is Ok) == flags_gen_rule(bitflags),
%loop generate_code_to_extend_bitflags 0 for it
            invariant bitflags.nbits <= 32, known_flags@.finite(),
                forall|v: u64| #[trigger] known_flags@.contains(v) <==> (const_values(bitflags).contains(v) && is_bit(v, bit as int)),
%loopstart generate_code_to_extend_bitflags 0
            let ghost k0 = known_flags@;
            proof { lemma_next_bit(bitflags, bit as int); }
%loopafter generate_code_to_extend_bitflags 0
        proof { lemma_known(bitflags, known_flags@); }
%fn generate_code_for_recv_packet | ret=r
        ensures (r is Ok) == packet_rule(attrs@, fields),
%fn generate_code_for_send_packet | ret=r
        ensures (r is Ok) == packet_rule(attrs@, fields),
%fn generate_code_for_recv_send_packet | ret=r
        ensures (r is Ok) == packet_rule(attrs@, fields),
%fn extend_enum | ret=r
        ensures (r is Ok) == enum_rule(attrs@, variants@),
%fn extend_bitflags | ret=r
        ensures r is Ok ==> mac.mac.path.name() == "bitflags"@ && flags_rule(mac) && exists|d: BitFlagsMacro| flags_are(d, mac) && flags_gen_rule(d),
            mac.mac.path.name() == "bitflags"@ && flags_rule(mac) && (forall|d: BitFlagsMacro| flags_are(d, mac) ==> flags_gen_rule(d)) ==> r is Ok,
%loop <Parse for PackFieldMap>::parse 0 while
            invariant map_read(old(input).rest(), map_start()) == map_read(input.rest(), map_now(map, map_ty, custom_from_fn, custom_into_fn, custom_is_valid_fn, custom_size_fn)), map.map_type is None,
            decreases input.rest().len(),
%loopstart <Parse for PackFieldMap>::parse 0
            let ghost s0 = input.rest();
            let ghost m0 = map_now(map, map_ty, custom_from_fn, custom_into_fn, custom_is_valid_fn, custom_size_fn);
            proof { lemma_map_keys(); }
%end <Parse for BitFlagsAst>::parse
        proof { assert(pvs(items@) =~= items@); }
