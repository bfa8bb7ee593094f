%# Stand-ins for the parts of syn / proc-macro2 that the derive macros read: the shape of the types is syn's,
%# what is inside an identifier, a literal or a type is given by uninterpreted functions.
%open
%prelude
pub mod syn {
    use vstd::prelude::*;
    verus! {
    pub struct Error { pub e: u8 }
    pub type Result<T> = core::result::Result<T, Error>;
    #[verifier::external_body]
    pub fn err() -> Error { unimplemented!() }
    #[derive(Clone, Copy)]
    pub struct Span { pub s: u8 }
    pub struct Tok { pub t: u8 }
    pub struct TokenStream { pub t: u8 }
    pub struct Ident { pub i: u8 }
    impl Ident {
        #[verifier::external_body]
        pub fn span(&self) -> Span { unimplemented!() }
        #[verifier::external_body]
        pub fn to_string(&self) -> String { unimplemented!() }
    }
    pub struct Path { pub p: u8 }
    impl Path {
        /// the identifier a path of one plain segment consists of (anything else: no identifier)
        pub uninterp spec fn name(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn is_ident(&self, s: &str) -> (r: bool) ensures r == (self.name() == s@) { unimplemented!() }
        #[verifier::external_body]
        pub fn span(&self) -> Span { unimplemented!() }
    }
    /// integer types a literal is read as
    pub trait Base10: Sized { spec fn of(n: nat) -> Option<Self>; }
    impl Base10 for u8 { open spec fn of(n: nat) -> Option<u8> { if n <= 0xff { Some(n as u8) } else { None } } }
    impl Base10 for u16 { open spec fn of(n: nat) -> Option<u16> { if n <= 0xffff { Some(n as u16) } else { None } } }
    impl Base10 for u32 { open spec fn of(n: nat) -> Option<u32> { if n <= 0xffff_ffff { Some(n as u32) } else { None } } }
    impl Base10 for u64 { open spec fn of(n: nat) -> Option<u64> { if n <= 0xffff_ffff_ffff_ffff { Some(n as u64) } else { None } } }
    impl Base10 for usize { open spec fn of(n: nat) -> Option<usize> { if n <= usize::MAX { Some(n as usize) } else { None } } }
    pub struct LitInt { pub l: u8 }
    impl LitInt {
        pub uninterp spec fn val(&self) -> nat;
        #[verifier::external_body]
        pub fn base10_parse<N: Base10>(&self) -> (r: Result<N>)
            ensures match r { Ok(x) => N::of(self.val()) == Some(x), Err(_) => N::of(self.val()) is None } { unimplemented!() }
    }
    // -------- token streams
    /// one token tree
    pub struct TT { pub t: u8 }
    impl TT {
        /// the text of an identifier, keyword or punctuation mark
        pub uninterp spec fn text(self) -> Seq<char>;
    }
    pub type Toks = Seq<TT>;
    pub open spec fn starts(s: Toks, w: Seq<char>) -> bool { s.len() > 0 && s[0].text() == w }
    /// what is read from the front of a token stream: the value written there and the tokens behind it
    pub trait Parse: Sized {
        type V;
        spec fn pv(self) -> Self::V;
        spec fn take(s: Toks) -> Option<(Self::V, Toks)>;
        fn parse(input: &mut Stream) -> (r: Result<Self>)
            ensures match r { Ok(x) => Self::take(old(input).rest()) == Some((x.pv(), final(input).rest())), Err(_) => Self::take(old(input).rest()) is None };
    }
    /// a stream that has to be used up
    pub open spec fn whole<T: Parse>(s: Toks) -> Option<T::V> { match T::take(s) { Some((v, r)) => if r.len() == 0 { Some(v) } else { None }, None => None } }
    /// `x, x, x` with an optional separator at the end
    pub open spec fn list_of<T: Parse, S: Parse>(s: Toks) -> Option<Seq<T::V>>
        decreases s.len(),
    {
        if s.len() == 0 { Some(Seq::empty()) } else {
            match T::take(s) {
                None => None,
                Some((v, r)) => if r.len() == 0 { Some(seq![v]) } else {
                    match S::take(r) {
                        None => None,
                        Some((_, q)) => if q.len() < s.len() { match list_of::<T, S>(q) { Some(l) => Some(seq![v] + l), None => None } } else { None },
                    }
                },
            }
        }
    }
    pub open spec fn pvs<T: Parse>(v: Seq<T>) -> Seq<T::V> { Seq::new(v.len(), |i: int| v[i].pv()) }
    /// syn::parse::ParseBuffer
    pub struct Stream { pub s: u8 }
    impl Stream {
        pub uninterp spec fn rest(&self) -> Toks;
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r == (self.rest().len() == 0) { unimplemented!() }
        #[verifier::external_body]
        pub fn lookahead1(&self) -> (r: Lookahead) ensures r.rest() == self.rest() { unimplemented!() }
        #[verifier::external_body]
        pub fn peek<T: Word>(&self, w: T) -> (r: bool) ensures r == starts(self.rest(), T::text()) { unimplemented!() }
        #[verifier::external_body]
        pub fn parse<T: Parse>(&mut self) -> (r: Result<T>)
            ensures final(self).rest().len() <= old(self).rest().len(),
                match r { Ok(x) => T::take(old(self).rest()) == Some((x.pv(), final(self).rest())), Err(_) => T::take(old(self).rest()) is None },
        { unimplemented!() }
        /// `parse_terminated(T::parse)` with separator `S`
        #[verifier::external_body]
        pub fn parse_terminated<T: Parse, S: Parse>(&mut self) -> (r: Result<Vec<T>>)
            ensures match r { Ok(x) => list_of::<T, S>(old(self).rest()) == Some(pvs(x@)) && final(self).rest().len() == 0, Err(_) => list_of::<T, S>(old(self).rest()) is None },
        { unimplemented!() }
        /// `call(Attribute::parse_outer)`
        #[verifier::external_body]
        pub fn outer_attrs(&mut self) -> (r: Result<Vec<Attribute>>)
            ensures final(self).rest().len() <= old(self).rest().len(),
                match r { Ok(x) => attrs_of(old(self).rest()) == Some((x, final(self).rest())), Err(_) => attrs_of(old(self).rest()) is None },
        { unimplemented!() }
        /// `braced!(content in input)`
        #[verifier::external_body]
        pub fn braced(&mut self) -> (r: Result<(Tok, Stream)>)
            ensures match r { Ok(x) => brace_of(old(self).rest()) == Some((x.1.rest(), final(self).rest())), Err(_) => brace_of(old(self).rest()) is None },
        { unimplemented!() }
    }
    pub uninterp spec fn attrs_of(s: Toks) -> Option<(Vec<Attribute>, Toks)>;
    /// the content of a brace at the front and what follows it
    pub uninterp spec fn brace_of(s: Toks) -> Option<(Toks, Toks)>;
    pub struct Lookahead { pub s: u8 }
    impl Lookahead {
        pub uninterp spec fn rest(&self) -> Toks;
        #[verifier::external_body]
        pub fn peek<T: Word>(&self, w: T) -> (r: bool) ensures r == starts(self.rest(), T::text()) { unimplemented!() }
        #[verifier::external_body]
        pub fn error(&self) -> Error { unimplemented!() }
    }
    pub trait Word: Sized { spec fn text() -> Seq<char>; }
    pub open spec fn take_word(s: Toks, w: Seq<char>) -> Option<((), Toks)> { if starts(s, w) { Some(((), s.skip(1))) } else { None } }
    }
    macro_rules! keyword {
        ($n:ident, $s:literal) => { verus! {
            pub struct $n;
            impl Word for $n { open spec fn text() -> Seq<char> { $s@ } }
            impl Parse for $n {
                type V = ();
                open spec fn pv(self) -> () { () }
                open spec fn take(s: Toks) -> Option<((), Toks)> { take_word(s, $s@) }
                #[verifier::external_body]
                fn parse(input: &mut Stream) -> Result<Self> { unimplemented!() }
            }
        } }
    }
    macro_rules! leaf {
        ($n:ident) => { verus! {
            impl Parse for $n {
                type V = $n;
                open spec fn pv(self) -> $n { self }
                uninterp spec fn take(s: Toks) -> Option<($n, Toks)>;
                #[verifier::external_body]
                fn parse(input: &mut Stream) -> Result<Self> { unimplemented!() }
            }
        } }
    }
    keyword!(Eq, "=");
    keyword!(Comma, ",");
    keyword!(Semi, ";");
    keyword!(Colon, ":");
    keyword!(KwStruct, "struct");
    keyword!(KwConst, "const");
    leaf!(Ident);
    leaf!(Path);
    leaf!(LitInt);
    leaf!(LitFloat);
    leaf!(Type);
    leaf!(Expr);
    leaf!(Visibility);
    pub mod kw {
        use super::*;
        keyword!(map_type, "map_type");
        keyword!(scale, "scale");
        keyword!(alias, "alias");
        keyword!(default_for_builder, "default_for_builder");
        keyword!(may_fail, "may_fail");
        keyword!(from, "from");
        keyword!(is_valid, "is_valid");
        keyword!(get_as_ref, "get_as_ref");
        keyword!(into, "into");
        keyword!(size_fn, "size_fn");
    }
    verus! {
    /// `ToTokens::into_token_stream`
    pub trait ToTokens: Sized { spec fn toks(self) -> TokenStream; }
    impl ToTokens for Path { uninterp spec fn toks(self) -> TokenStream; }
    impl ToTokens for Expr { uninterp spec fn toks(self) -> TokenStream; }
    pub open spec fn toks_of<T: ToTokens>(x: Option<T>) -> Option<TokenStream> { match x { Some(t) => Some(t.toks()), None => None } }
    pub open spec fn tok_of<T: ToTokens>(x: T) -> TokenStream { x.toks() }
    #[verifier::external_body]
    pub fn one_tokens<T: ToTokens>(x: T) -> (r: TokenStream) ensures r == tok_of(x) { unimplemented!() }
    pub struct LitStr { pub l: u8 }
    impl LitStr {
        /// the tokens of the text
        pub uninterp spec fn toks(&self) -> Toks;
        #[verifier::external_body]
        pub fn parse<T: Parse>(&self) -> (r: Result<T>)
            ensures match r { Ok(x) => whole::<T>(self.toks()) == Some(x.pv()), Err(_) => whole::<T>(self.toks()) is None } { unimplemented!() }
        #[verifier::external_body]
        pub fn value(&self) -> String { unimplemented!() }
    }
    pub struct LitFloat { pub l: u8 }
    pub enum Lit { Str(LitStr), Int(LitInt), Float(LitFloat), Other(u8) }
    impl Lit {
        #[verifier::external_body]
        pub fn span(&self) -> Span { unimplemented!() }
    }
    pub struct MetaList { pub path: Path, pub nested: Vec<NestedMeta> }
    pub struct MetaNameValue { pub path: Path, pub lit: Lit }
    pub enum Meta { Path(Path), List(MetaList), NameValue(MetaNameValue) }
    impl Meta {
        #[verifier::external_body]
        pub fn span(&self) -> Span { unimplemented!() }
    }
    pub enum NestedMeta { Meta(Meta), Lit(Lit) }
    pub struct Attribute { pub path: Path, pub tokens: TokenStream }
    impl Attribute {
        /// the meta item the attribute is written as, if it is one
        pub uninterp spec fn meta(&self) -> Option<Meta>;
        #[verifier::external_body]
        pub fn parse_meta(&self) -> (r: Result<Meta>)
            ensures match r { Ok(m) => self.meta() == Some(m), Err(_) => self.meta() is None } { unimplemented!() }
        /// the tokens of `(..)` behind the path
        pub uninterp spec fn args(&self) -> Option<Toks>;
        #[verifier::external_body]
        pub fn parse_args<T: Parse>(&self) -> (r: Result<T>)
            ensures match r { Ok(m) => self.args() is Some && whole::<T>(self.args()->0) == Some(m.pv()), Err(_) => self.args() is None || whole::<T>(self.args()->0) is None } { unimplemented!() }
        #[verifier::external_body]
        pub fn span(&self) -> Span { unimplemented!() }
    }
    pub enum TypePath { U8, I8, U16, I16, U32, I32, F32, F64, Other(u8) }
    pub struct TypeArray { pub elem: Box<Type>, pub len: Expr }
    pub enum Type { Path(TypePath), Array(TypeArray), Reference(u8), Other(u8) }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Type {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Type) -> bool { *self == *o }
    }
    impl PartialEq for Type {
        #[verifier::external_body]
        fn eq(&self, o: &Type) -> bool { unimplemented!() }
    }
    impl Type {
        #[verifier::external_body]
        pub fn span(&self) -> Span { unimplemented!() }
    }
    pub fn t_u8() -> (r: Type) ensures r == Type::Path(TypePath::U8) { Type::Path(TypePath::U8) }
    pub fn t_i8() -> (r: Type) ensures r == Type::Path(TypePath::I8) { Type::Path(TypePath::I8) }
    pub fn t_u16() -> (r: Type) ensures r == Type::Path(TypePath::U16) { Type::Path(TypePath::U16) }
    pub fn t_i16() -> (r: Type) ensures r == Type::Path(TypePath::I16) { Type::Path(TypePath::I16) }
    pub fn t_u32() -> (r: Type) ensures r == Type::Path(TypePath::U32) { Type::Path(TypePath::U32) }
    pub fn t_i32() -> (r: Type) ensures r == Type::Path(TypePath::I32) { Type::Path(TypePath::I32) }
    pub fn t_f32() -> (r: Type) ensures r == Type::Path(TypePath::F32) { Type::Path(TypePath::F32) }
    pub fn t_f64() -> (r: Type) ensures r == Type::Path(TypePath::F64) { Type::Path(TypePath::F64) }
    pub struct ExprLit { pub lit: Lit, pub attrs: Vec<Attribute> }
    pub enum Expr { Lit(ExprLit), Other(u8) }
    impl Expr {
        #[verifier::external_body]
        pub fn span(&self) -> Span { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn parse2<T: Parse>(t: TokenStream) -> (r: Result<T>)
        ensures match r { Ok(x) => whole::<T>(t.toks()) == Some(x.pv()), Err(_) => whole::<T>(t.toks()) is None } { unimplemented!() }
    /// generated text, identifiers and messages: not specified
    #[verifier::external_body]
    pub fn ts() -> TokenStream { unimplemented!() }
    #[verifier::external_body]
    pub fn ident() -> Ident { unimplemented!() }
    #[verifier::external_body]
    pub fn msg() -> String { unimplemented!() }
    impl TokenStream {
        pub uninterp spec fn toks(&self) -> Toks;
        #[verifier::external_body]
        pub fn extend(&mut self, o: TokenStream) { unimplemented!() }
    }
    pub struct Visibility { pub v: u8 }
    pub struct Field { pub ident: Option<Ident>, pub attrs: Vec<Attribute>, pub ty: Type, pub vis: Visibility }
    impl Field {
        #[verifier::external_body]
        pub fn span(&self) -> Span { unimplemented!() }
    }
    pub struct FieldsNamed { pub named: Vec<Field> }
    pub struct FieldsUnnamed { pub unnamed: Vec<Field> }
    pub enum Fields { Named(FieldsNamed), Unnamed(FieldsUnnamed), Unit }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Fields {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Fields) -> bool { *self == *o }
    }
    impl PartialEq for Fields {
        #[verifier::external_body]
        fn eq(&self, o: &Fields) -> bool { unimplemented!() }
    }
    impl Fields {
        #[verifier::external_body]
        pub fn span(&self) -> Span { unimplemented!() }
    }
    pub struct Variant { pub ident: Ident, pub fields: Fields, pub discriminant: Option<(Tok, Expr)>, pub attrs: Vec<Attribute> }
    pub struct Macro { pub path: Path, pub tokens: TokenStream }
    pub struct ItemMacro { pub attrs: Vec<Attribute>, pub ident: Option<Ident>, pub mac: Macro }
    impl ItemMacro {
        #[verifier::external_body]
        pub fn span(&self) -> Span { unimplemented!() }
    }
    }
}
use syn::{kw, list_of, pvs, starts, whole, Parse, Toks};
use syn::{Attribute, Error, Fields, Ident, Span, TokenStream, Type};

/// std::num::NonZeroUsize
#[derive(Clone, Copy)]
pub struct NonZeroUsize { pub n: usize }
impl NonZeroUsize {
    pub fn new(n: usize) -> (r: Option<NonZeroUsize>) ensures n == 0 ==> r is None, n != 0 ==> r == Some(NonZeroUsize { n }) { if n == 0 { None } else { Some(NonZeroUsize { n }) } }
    pub fn get(self) -> (r: usize) ensures r == self.n { self.n }
}
pub fn vec_first<T>(v: &Vec<T>) -> (r: &T) requires v@.len() > 0, ensures *r == v@[0] { &v[0] }
/// a panic of a macro is a compile error
#[verifier::external_body]
pub fn reject() -> ! { panic!() }

pub assume_specification [String::with_capacity] (n: usize) -> (r: String);

/// `iter().find(|a| a.path.is_ident(s))`
pub open spec fn first_named(a: Seq<Attribute>, s: Seq<char>) -> Option<Attribute>
    decreases a.len(),
{
    if a.len() == 0 { None } else if a[0].path.name() == s { Some(a[0]) } else { first_named(a.skip(1), s) }
}
pub fn attr_find<'a>(a: &'a [Attribute], s: &str) -> (r: Option<&'a Attribute>)
    ensures match r { Some(x) => first_named(a@, s@) == Some(*x), None => first_named(a@, s@) is None },
{
    let mut i = 0;
    proof { assert(a@.skip(0) =~= a@); }
    while i < a.len()
        invariant i <= a.len(), first_named(a@, s@) == first_named(a@.skip(i as int), s@),
        decreases a.len() - i,
    {
        if a[i].path.is_ident(s) { return Some(&a[i]); }
        proof { assert(a@.skip(i as int).skip(1) =~= a@.skip(i + 1)); }
        i += 1;
    }
    None
}
/// `iter().find(|x| x.0 == *ty)`
pub fn table_find<'a, T>(s: &'a [(Type, T)], ty: &Type) -> (r: Option<&'a (Type, T)>)
    ensures match r { Some(x) => exists|i: int| 0 <= i < s@.len() && s@[i] == *x && x.0 == *ty, None => forall|i: int| 0 <= i < s@.len() ==> s@[i].0 != *ty },
{
    let mut i = 0;
    while i < s.len()
        invariant i <= s.len(), forall|k: int| 0 <= k < i ==> s@[k].0 != *ty,
        decreases s.len() - i,
    {
        if s[i].0 == *ty { return Some(&s[i]); }
        i += 1;
    }
    None
}
%gsubst
input: syn::parse::ParseStream ==> input: &mut syn::Stream
;;
ToTokens::into_token_stream ==> |x| -> (r: TokenStream) ensures r == syn::tok_of(x), { syn::one_tokens(x) }
;;
input.parse_terminated(PacketFlag::parse)? ==> input.parse_terminated::<PacketFlag, syn::Comma>()?
;;
content.parse_terminated(BitFlagsAstConst::parse)? ==> content.parse_terminated::<BitFlagsAstConst, syn::Semi>()?
;;
input.call(Attribute::parse_outer)? ==> input.outer_attrs()?
;;
let content; ==>
;;
let brace_token = braced!(content in input); ==> let (brace_token, mut content) = input.braced()?;
;;
Error::new($a) ==> syn::err()
;;
syn::parse_quote!(u8) ==> syn::t_u8()
;;
syn::parse_quote!(i8) ==> syn::t_i8()
;;
syn::parse_quote!(u16) ==> syn::t_u16()
;;
syn::parse_quote!(i16) ==> syn::t_i16()
;;
syn::parse_quote!(u32) ==> syn::t_u32()
;;
syn::parse_quote!(i32) ==> syn::t_i32()
;;
syn::parse_quote!(f32) ==> syn::t_f32()
;;
syn::parse_quote!(f64) ==> syn::t_f64()
;;
syn::parse_quote! { u8 } ==> syn::t_u8()
;;
syn::parse_quote! { f32 } ==> syn::t_f32()
;;
syn::parse_quote! { f64 } ==> syn::t_f64()
;;
attrs.iter().find(|a| a.path.is_ident($s)) ==> attr_find(&attrs, $s)
;;
valid_types.iter().find(|x| x.0 == *ty) ==> table_find(&valid_types, ty)
;;
valid_types.iter().find(|x| x.0 == ast.repr_ty) ==> table_find(&valid_types, &ast.repr_ty)
;;
Punctuated<$a, syn::token::Comma> ==> Vec<$a>
;;
Punctuated<$a, Token![,]> ==> Vec<$a>
;;
Punctuated<BitFlagsAstConst, Token![;]> ==> Vec<BitFlagsAstConst>
;;
Token![=] ==> syn::Eq
;;
Token![,] ==> syn::Comma
;;
Token![:] ==> syn::Colon
;;
Token![struct] ==> syn::KwStruct
;;
Token![const] ==> syn::KwConst
;;
valid_type_names.push_str($a) ==> ()
;;
in &valid_types ==> in valid_types.iter()
;;
doc_comments.push_str(&$a.value()) ==> ()
;;
unimplemented!() ==> reject()
