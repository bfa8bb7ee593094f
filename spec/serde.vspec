%open
%prelude
/// what a serialiser is told
#[verifier::external_body]
pub struct Form { x: u8 }
/// the serialised form of a value (whatever the format makes of it)
pub uninterp spec fn form_of<T: ?Sized>(x: &T) -> Form;
/// the form of a map of entries, of a byte and of the items of an iterator
pub uninterp spec fn map_form(entries: Seq<(Form, Form)>) -> Form;
pub uninterp spec fn items_form<I>(it: I) -> Form;
pub uninterp spec fn int_form(width: int, x: int) -> Form;
/// the form that a finished serialiser holds
pub uninterp spec fn written<T>(ok: T) -> Form;
// a clone of an iterator yields the same items
pub broadcast axiom fn axiom_clone_items<I: Clone>(a: I, b: I) ensures #[trigger] call_ensures(I::clone, (&a,), b) ==> items_form(b) == items_form(a);

use self::serde::{Serialize as _, Serializer as _, ser::SerializeMap as _};
pub mod serde {
    use super::*;
    pub mod ser {
        use super::super::*;
        pub trait SerializeMap: Sized {
            type Ok;
            type Error;
            /// the entries given so far
            spec fn log(&self) -> Seq<(Form, Form)>;
            fn serialize_entry<K: ?Sized, T: ?Sized>(&mut self, key: &K, value: &T) -> (r: Result<(), Self::Error>)
                ensures r is Ok ==> final(self).log() == old(self).log().push((form_of(key), form_of(value)));
            fn end(self) -> (r: Result<Self::Ok, Self::Error>)
                ensures r is Ok ==> written(r->Ok_0) == map_form(self.log());
        }
    }
    pub trait Serializer: Sized {
        type Ok;
        type Error;
        type SerializeMap: ser::SerializeMap<Ok = Self::Ok, Error = Self::Error>;
        fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::SerializeMap, Self::Error>)
            ensures r is Ok ==> ser::SerializeMap::log(&r->Ok_0) == Seq::<(Form, Form)>::empty();
        fn serialize_u8(self, v: u8) -> (r: Result<Self::Ok, Self::Error>)
            ensures r is Ok ==> written(r->Ok_0) == int_form(8, v as int);
        fn serialize_u16(self, v: u16) -> (r: Result<Self::Ok, Self::Error>)
            ensures r is Ok ==> written(r->Ok_0) == int_form(16, v as int);
        fn serialize_u32(self, v: u32) -> (r: Result<Self::Ok, Self::Error>)
            ensures r is Ok ==> written(r->Ok_0) == int_form(32, v as int);
        fn collect_seq<I>(self, iter: I) -> (r: Result<Self::Ok, Self::Error>)
            ensures r is Ok ==> written(r->Ok_0) == items_form(iter);
    }
    pub trait Serialize {
        /// what is to be written
        spec fn form(&self) -> Form;
        /// what may be written
        spec fn fit(&self) -> bool;
        fn serialize<S>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>) where S: Serializer
            requires self.fit(),
            ensures r is Ok ==> written(r->Ok_0) == self.form();
    }
}
pub broadcast group serde_axioms { axiom_clone_items }
