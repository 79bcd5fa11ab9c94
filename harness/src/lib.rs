//! Instantiates every public function of papaya at opaque key / value / hasher / guard / closure
//! types so that the compiler hands the verifier their monomorphic MIR.  Every method of the
//! opaque types is external to the verifier (its body here is never looked at).
#![allow(dead_code, unused)]
use papaya::*;
use seize::{Collector, Guard};
use std::hash::{BuildHasher, Hash, Hasher};

pub struct K(u64);
pub struct V(u64);
pub struct S(u64);
pub struct H(u64);
pub struct Q(u64);
pub struct G(u64);
pub struct T(u64);
pub struct It(u64);
pub struct ItK(u64);
pub struct ItR(u64);
pub struct ItKR(u64);

macro_rules! ext { () => { loop {} } }

impl Drop for T { fn drop(&mut self) { ext!() } }
impl Drop for K { fn drop(&mut self) { ext!() } }
impl Drop for V { fn drop(&mut self) { ext!() } }
impl Hash for K { fn hash<X: Hasher>(&self, _: &mut X) { ext!() } }
impl Hash for Q { fn hash<X: Hasher>(&self, _: &mut X) { ext!() } }
impl PartialEq for K { fn eq(&self, _: &K) -> bool { ext!() } }
impl Eq for K {}
impl PartialEq for V { fn eq(&self, _: &V) -> bool { ext!() } }
impl Eq for V {}
impl Clone for K { fn clone(&self) -> K { ext!() } }
impl Clone for V { fn clone(&self) -> V { ext!() } }
impl Equivalent<K> for Q { fn equivalent(&self, _: &K) -> bool { ext!() } }
impl Hasher for H { fn finish(&self) -> u64 { ext!() } fn write(&mut self, _: &[u8]) { ext!() } }
impl BuildHasher for S { type Hasher = H; fn build_hasher(&self) -> H { ext!() } }
impl Clone for S { fn clone(&self) -> S { ext!() } }
impl Default for S { fn default() -> S { ext!() } }
impl Drop for S { fn drop(&mut self) { ext!() } }
impl Guard for G {
    fn refresh(&mut self) { ext!() }
    fn flush(&self) { ext!() }
    fn collector(&self) -> &Collector { ext!() }
    fn thread_id(&self) -> usize { ext!() }
    unsafe fn defer_retire<X>(&self, _: *mut X, _: unsafe fn(*mut X, &Collector)) { ext!() }
}
impl Iterator for It { type Item = (K, V); fn next(&mut self) -> Option<(K, V)> { ext!() } fn size_hint(&self) -> (usize, Option<usize>) { ext!() } }
impl Iterator for ItK { type Item = K; fn next(&mut self) -> Option<K> { ext!() } fn size_hint(&self) -> (usize, Option<usize>) { ext!() } }

pub fn f_mut_kv(_: &K, _: &V) -> bool { ext!() }
pub fn f_k(_: &K) -> bool { ext!() }
pub fn f_make() -> V { ext!() }
pub fn f_upd(_: &V) -> V { ext!() }
pub fn f_comp<'g>(_: Option<(&'g K, &'g V)>) -> Operation<V, T> { ext!() }

pub type M = HashMap<K, V, S>;
pub type HS = HashSet<K, S>;
pub type R<'a> = HashMapRef<'a, K, V, S, LocalGuard<'a>>;
pub type SR<'a> = HashSetRef<'a, K, S, LocalGuard<'a>>;

// construction
pub fn m_new() -> HashMap<K, V> { HashMap::new() }
pub fn m_with_capacity(c: usize) -> HashMap<K, V> { HashMap::with_capacity(c) }
pub fn m_builder() -> HashMapBuilder<K, V> { HashMap::builder() }
pub fn m_b_hasher(b: HashMapBuilder<K, V>, s: S) -> HashMapBuilder<K, V, S> { b.hasher(s) }
pub fn m_b_capacity(b: HashMapBuilder<K, V, S>, c: usize) -> HashMapBuilder<K, V, S> { b.capacity(c) }
pub fn m_b_resize(b: HashMapBuilder<K, V, S>, r: ResizeMode) -> HashMapBuilder<K, V, S> { b.resize_mode(r) }
pub fn m_b_collector(b: HashMapBuilder<K, V, S>, c: Collector) -> HashMapBuilder<K, V, S> { b.collector(c) }
pub fn m_b_build(b: HashMapBuilder<K, V, S>) -> M { b.build() }
pub fn m_default() -> M { M::default() }
pub fn m_with_hasher(s: S) -> M { M::with_hasher(s) }
pub fn m_with_cap_hasher(c: usize, s: S) -> M { M::with_capacity_and_hasher(c, s) }
pub fn m_pin(m: &M) -> R<'_> { m.pin() }
pub fn m_pin_owned(m: &M) -> HashMapRef<'_, K, V, S, OwnedGuard<'_>> { m.pin_owned() }
pub fn m_guard(m: &M) -> LocalGuard<'_> { m.guard() }
pub fn m_owned_guard(m: &M) -> OwnedGuard<'_> { m.owned_guard() }
pub fn m_drop(m: M) { drop(m) }

// map operations with an explicit guard
pub fn m_len(m: &M) -> usize { m.len() }
pub fn m_is_empty(m: &M) -> bool { m.is_empty() }
pub fn m_contains<'g>(m: &M, q: &Q, g: &'g G) -> bool { m.contains_key(q, g) }
pub fn m_get<'g>(m: &M, q: &Q, g: &'g G) -> Option<&'g V> { m.get(q, g) }
pub fn m_get_kv<'g>(m: &M, q: &Q, g: &'g G) -> Option<(&'g K, &'g V)> { m.get_key_value(q, g) }
pub fn m_insert<'g>(m: &M, k: K, v: V, g: &'g G) -> Option<&'g V> { m.insert(k, v, g) }
pub fn m_try_insert<'g>(m: &M, k: K, v: V, g: &'g G) -> Result<&'g V, OccupiedError<'g, V>> { m.try_insert(k, v, g) }
pub fn m_try_insert_with<'g>(m: &M, k: K, g: &'g G) -> Result<&'g V, &'g V> { m.try_insert_with(k, f_make, g) }
pub fn m_get_or_insert<'g>(m: &M, k: K, v: V, g: &'g G) -> &'g V { m.get_or_insert(k, v, g) }
pub fn m_get_or_insert_with<'g>(m: &M, k: K, g: &'g G) -> &'g V { m.get_or_insert_with(k, f_make, g) }
pub fn m_update<'g>(m: &M, k: K, g: &'g G) -> Option<&'g V> { m.update(k, f_upd, g) }
pub fn m_update_or_insert<'g>(m: &M, k: K, v: V, g: &'g G) -> &'g V { m.update_or_insert(k, f_upd, v, g) }
pub fn m_update_or_insert_with<'g>(m: &M, k: K, g: &'g G) -> &'g V { m.update_or_insert_with(k, f_upd, f_make, g) }
pub fn m_compute<'g>(m: &M, k: K, g: &'g G) -> Compute<'g, K, V, T> { m.compute(k, f_comp, g) }
pub fn m_remove<'g>(m: &M, q: &Q, g: &'g G) -> Option<&'g V> { m.remove(q, g) }
pub fn m_remove_entry<'g>(m: &M, q: &Q, g: &'g G) -> Option<(&'g K, &'g V)> { m.remove_entry(q, g) }
pub fn m_remove_if<'g>(m: &M, q: &Q, g: &'g G) -> Result<Option<(&'g K, &'g V)>, (&'g K, &'g V)> { m.remove_if(q, f_mut_kv, g) }
pub fn m_clear(m: &M, g: &G) { m.clear(g) }
pub fn m_retain(m: &M, g: &G) { m.retain(f_mut_kv, g) }
pub fn m_reserve(m: &M, n: usize, g: &G) { m.reserve(n, g) }
pub fn m_iter<'g>(m: &M, g: &'g G) -> Iter<'g, K, V, G> { m.iter(g) }
pub fn m_keys<'g>(m: &M, g: &'g G) -> Keys<'g, K, V, G> { m.keys(g) }
pub fn m_values<'g>(m: &M, g: &'g G) -> Values<'g, K, V, G> { m.values(g) }
pub fn m_iter_next<'g>(i: &mut Iter<'g, K, V, G>) -> Option<(&'g K, &'g V)> { i.next() }
pub fn m_keys_next<'g>(i: &mut Keys<'g, K, V, G>) -> Option<&'g K> { i.next() }
pub fn m_values_next<'g>(i: &mut Values<'g, K, V, G>) -> Option<&'g V> { i.next() }

// whole-map traits
pub fn m_eq(a: &M, b: &M) -> bool { a == b }
pub fn m_clone(m: &M) -> M { m.clone() }
pub fn m_extend(m: &M, i: It) { let mut r = m; r.extend(i) }
pub fn m_from_iter(i: It) -> M { i.collect() }
pub fn m_from_array(a: [(K, V); 3]) -> HashMap<K, V> { HashMap::from(a) }

// pinned map
pub fn r_map<'a>(r: &R<'a>) -> &'a M { r.map() }
pub fn r_len(r: &R<'_>) -> usize { r.len() }
pub fn r_is_empty(r: &R<'_>) -> bool { r.is_empty() }
pub fn r_contains(r: &R<'_>, q: &Q) -> bool { r.contains_key(q) }
pub fn r_get<'a>(r: &'a R<'_>, q: &Q) -> Option<&'a V> { r.get(q) }
pub fn r_get_kv<'a>(r: &'a R<'_>, q: &Q) -> Option<(&'a K, &'a V)> { r.get_key_value(q) }
pub fn r_insert<'a>(r: &'a R<'_>, k: K, v: V) -> Option<&'a V> { r.insert(k, v) }
pub fn r_try_insert<'a>(r: &'a R<'_>, k: K, v: V) -> Result<&'a V, OccupiedError<'a, V>> { r.try_insert(k, v) }
pub fn r_try_insert_with<'a>(r: &'a R<'_>, k: K) -> Result<&'a V, &'a V> { r.try_insert_with(k, f_make) }
pub fn r_get_or_insert<'a>(r: &'a R<'_>, k: K, v: V) -> &'a V { r.get_or_insert(k, v) }
pub fn r_get_or_insert_with<'a>(r: &'a R<'_>, k: K) -> &'a V { r.get_or_insert_with(k, f_make) }
pub fn r_update<'a>(r: &'a R<'_>, k: K) -> Option<&'a V> { r.update(k, f_upd) }
pub fn r_update_or_insert<'a>(r: &'a R<'_>, k: K, v: V) -> &'a V { r.update_or_insert(k, f_upd, v) }
pub fn r_update_or_insert_with<'a>(r: &'a R<'_>, k: K) -> &'a V { r.update_or_insert_with(k, f_upd, f_make) }
pub fn r_compute<'a>(r: &'a R<'_>, k: K) -> Compute<'a, K, V, T> { r.compute(k, f_comp) }
pub fn r_remove<'a>(r: &'a R<'_>, q: &Q) -> Option<&'a V> { r.remove(q) }
pub fn r_remove_entry<'a>(r: &'a R<'_>, q: &Q) -> Option<(&'a K, &'a V)> { r.remove_entry(q) }
pub fn r_remove_if<'a>(r: &'a R<'_>, q: &Q) -> Result<Option<(&'a K, &'a V)>, (&'a K, &'a V)> { r.remove_if(q, f_mut_kv) }
pub fn r_clear(r: &R<'_>) { r.clear() }
pub fn r_retain(r: &mut R<'_>) { r.retain(f_mut_kv) }
pub fn r_reserve(r: &R<'_>, n: usize) { r.reserve(n) }
pub fn r_iter<'a, 'm>(r: &'a R<'m>) -> Iter<'a, K, V, LocalGuard<'m>> { r.iter() }
pub fn r_keys<'a, 'm>(r: &'a R<'m>) -> Keys<'a, K, V, LocalGuard<'m>> { r.keys() }
pub fn r_values<'a, 'm>(r: &'a R<'m>) -> Values<'a, K, V, LocalGuard<'m>> { r.values() }
pub fn r_into_iter<'a, 'm>(r: &'a R<'m>) -> Iter<'a, K, V, LocalGuard<'m>> { r.into_iter() }

// set
pub fn s_new() -> HashSet<K> { HashSet::new() }
pub fn s_with_capacity(c: usize) -> HashSet<K> { HashSet::with_capacity(c) }
pub fn s_builder() -> HashSetBuilder<K> { HashSet::builder() }
pub fn s_b_hasher(b: HashSetBuilder<K>, s: S) -> HashSetBuilder<K, S> { b.hasher(s) }
pub fn s_b_capacity(b: HashSetBuilder<K, S>, c: usize) -> HashSetBuilder<K, S> { b.capacity(c) }
pub fn s_b_resize(b: HashSetBuilder<K, S>, r: ResizeMode) -> HashSetBuilder<K, S> { b.resize_mode(r) }
pub fn s_b_collector(b: HashSetBuilder<K, S>, c: Collector) -> HashSetBuilder<K, S> { b.collector(c) }
pub fn s_b_build(b: HashSetBuilder<K, S>) -> HS { b.build() }
pub fn s_default() -> HS { HS::default() }
pub fn s_with_hasher(s: S) -> HS { HS::with_hasher(s) }
pub fn s_with_cap_hasher(c: usize, s: S) -> HS { HS::with_capacity_and_hasher(c, s) }
pub fn s_pin(m: &HS) -> SR<'_> { m.pin() }
pub fn s_pin_owned(m: &HS) -> HashSetRef<'_, K, S, OwnedGuard<'_>> { m.pin_owned() }
pub fn s_guard(m: &HS) -> LocalGuard<'_> { m.guard() }
pub fn s_owned_guard(m: &HS) -> OwnedGuard<'_> { m.owned_guard() }
pub fn s_len(m: &HS) -> usize { m.len() }
pub fn s_is_empty(m: &HS) -> bool { m.is_empty() }
pub fn s_contains(m: &HS, q: &Q, g: &G) -> bool { m.contains(q, g) }
pub fn s_get<'g>(m: &HS, q: &Q, g: &'g G) -> Option<&'g K> { m.get(q, g) }
pub fn s_insert(m: &HS, k: K, g: &G) -> bool { m.insert(k, g) }
pub fn s_remove(m: &HS, q: &Q, g: &G) -> bool { m.remove(q, g) }
pub fn s_clear(m: &HS, g: &G) { m.clear(g) }
pub fn s_retain(m: &mut HS, g: &G) { m.retain(f_k, g) }
pub fn s_reserve(m: &HS, n: usize, g: &G) { m.reserve(n, g) }
pub fn s_iter<'g>(m: &HS, g: &'g G) -> impl Iterator<Item = &'g K> { m.iter(g) }
pub fn s_iter_next<'g>(m: &HS, g: &'g G) -> Option<&'g K> { m.iter(g).next() }
pub fn s_eq(a: &HS, b: &HS) -> bool { a == b }
pub fn s_clone(m: &HS) -> HS { m.clone() }
pub fn s_extend(m: &HS, i: ItK) { let mut r = m; r.extend(i) }
pub fn s_from_iter(i: ItK) -> HS { i.collect() }
pub fn s_from_array(a: [K; 3]) -> HashSet<K> { HashSet::from(a) }
pub fn sr_set<'a>(r: &SR<'a>) -> &'a HS { r.set() }
pub fn sr_len(r: &SR<'_>) -> usize { r.len() }
pub fn sr_is_empty(r: &SR<'_>) -> bool { r.is_empty() }
pub fn sr_contains(r: &SR<'_>, q: &Q) -> bool { r.contains(q) }
pub fn sr_get<'a>(r: &'a SR<'_>, q: &Q) -> Option<&'a K> { r.get(q) }
pub fn sr_insert(r: &SR<'_>, k: K) -> bool { r.insert(k) }
pub fn sr_remove(r: &SR<'_>, q: &Q) -> bool { r.remove(q) }
pub fn sr_clear(r: &SR<'_>) { r.clear() }
pub fn sr_retain(r: &mut SR<'_>) { r.retain(f_k) }
pub fn sr_reserve(r: &SR<'_>, n: usize) { r.reserve(n) }
pub fn sr_iter_next<'a>(r: &'a SR<'_>) -> Option<&'a K> { r.iter().next() }
pub fn sr_into_iter_next<'a>(r: &'a SR<'_>) -> Option<&'a K> { r.into_iter().next() }

// Extend by reference needs Copy items; a second, Copy, pair of opaque types.
#[derive(Clone, Copy)] pub struct KC(u64);
#[derive(Clone, Copy)] pub struct VC(u64);
impl Hash for KC { fn hash<X: Hasher>(&self, _: &mut X) { ext!() } }
impl PartialEq for KC { fn eq(&self, _: &KC) -> bool { ext!() } }
impl Eq for KC {}
pub struct ItRef<'a>(&'a KC, &'a VC);
impl<'a> Iterator for ItRef<'a> { type Item = (&'a KC, &'a VC); fn next(&mut self) -> Option<(&'a KC, &'a VC)> { ext!() } fn size_hint(&self) -> (usize, Option<usize>) { ext!() } }
pub struct ItKRef<'a>(&'a KC);
impl<'a> Iterator for ItKRef<'a> { type Item = &'a KC; fn next(&mut self) -> Option<&'a KC> { ext!() } fn size_hint(&self) -> (usize, Option<usize>) { ext!() } }
pub fn m_extend_ref<'a>(m: &HashMap<KC, VC, S>, i: ItRef<'a>) { let mut r = m; r.extend(i) }
pub fn s_extend_ref<'a>(m: &HashSet<KC, S>, i: ItKRef<'a>) { let mut r = m; r.extend(i) }

// serde
pub mod sd {
    use super::*;
    use serde::{de::*, ser::*, Deserialize, Deserializer, Serialize, Serializer};
    pub struct Ser(u64);
    pub struct De(u64);
    pub struct Acc(u64);
    pub struct AccS(u64);
    #[derive(Debug)]
    pub struct E(u64);
    impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { ext!() } }
    impl std::error::Error for E {}
    impl serde::ser::Error for E { fn custom<X: std::fmt::Display>(_: X) -> E { ext!() } }
    impl serde::de::Error for E { fn custom<X: std::fmt::Display>(_: X) -> E { ext!() } }
    impl Serialize for K { fn serialize<X: Serializer>(&self, _: X) -> Result<X::Ok, X::Error> { ext!() } }
    impl Serialize for V { fn serialize<X: Serializer>(&self, _: X) -> Result<X::Ok, X::Error> { ext!() } }
    impl<'de> Deserialize<'de> for K { fn deserialize<X: Deserializer<'de>>(_: X) -> Result<K, X::Error> { ext!() } }
    impl<'de> Deserialize<'de> for V { fn deserialize<X: Deserializer<'de>>(_: X) -> Result<V, X::Error> { ext!() } }
    type Imp = serde::ser::Impossible<u64, E>;
    macro_rules! un { ($($n:ident $t:ty),*) => { $(fn $n(self, _: $t) -> Result<u64, E> { ext!() })* } }
    pub struct SerC(u64);
    impl SerializeMap for SerC {
        type Ok = u64;
        type Error = E;
        fn serialize_key<X: ?Sized + Serialize>(&mut self, _: &X) -> Result<(), E> { ext!() }
        fn serialize_value<X: ?Sized + Serialize>(&mut self, _: &X) -> Result<(), E> { ext!() }
        fn serialize_entry<A: ?Sized + Serialize, B: ?Sized + Serialize>(&mut self, _: &A, _: &B) -> Result<(), E> { ext!() }
        fn end(self) -> Result<u64, E> { ext!() }
    }
    impl SerializeSeq for SerC {
        type Ok = u64;
        type Error = E;
        fn serialize_element<X: ?Sized + Serialize>(&mut self, _: &X) -> Result<(), E> { ext!() }
        fn end(self) -> Result<u64, E> { ext!() }
    }
    impl Serializer for Ser {
        type Ok = u64; type Error = E;
        type SerializeSeq = SerC; type SerializeTuple = Imp; type SerializeTupleStruct = Imp; type SerializeTupleVariant = Imp;
        type SerializeMap = SerC; type SerializeStruct = Imp; type SerializeStructVariant = Imp;
        un!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8,
            serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char,
            serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str);
        fn serialize_none(self) -> Result<u64, E> { ext!() }
        fn serialize_unit(self) -> Result<u64, E> { ext!() }
        fn serialize_some<X: ?Sized + Serialize>(self, _: &X) -> Result<u64, E> { ext!() }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<u64, E> { ext!() }
        fn serialize_newtype_struct<X: ?Sized + Serialize>(self, _: &'static str, _: &X) -> Result<u64, E> { ext!() }
        fn serialize_newtype_variant<X: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &X) -> Result<u64, E> { ext!() }
        fn serialize_seq(self, _: Option<usize>) -> Result<SerC, E> { ext!() }
        fn serialize_tuple(self, _: usize) -> Result<Imp, E> { ext!() }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, E> { ext!() }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, E> { ext!() }
        fn serialize_map(self, _: Option<usize>) -> Result<SerC, E> { ext!() }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, E> { ext!() }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, E> { ext!() }
        fn collect_map<A, B, I>(self, _: I) -> Result<u64, E> where A: Serialize, B: Serialize, I: IntoIterator<Item = (A, B)> { ext!() }
        fn collect_seq<I>(self, _: I) -> Result<u64, E> where I: IntoIterator, <I as IntoIterator>::Item: Serialize { ext!() }
    }
    impl<'de> MapAccess<'de> for Acc {
        type Error = E;
        fn next_key_seed<X: DeserializeSeed<'de>>(&mut self, _: X) -> Result<Option<X::Value>, E> { ext!() }
        fn next_value_seed<X: DeserializeSeed<'de>>(&mut self, _: X) -> Result<X::Value, E> { ext!() }
        fn next_entry<A: Deserialize<'de>, B: Deserialize<'de>>(&mut self) -> Result<Option<(A, B)>, E> { ext!() }
        fn next_key<A: Deserialize<'de>>(&mut self) -> Result<Option<A>, E> { ext!() }
        fn next_value<B: Deserialize<'de>>(&mut self) -> Result<B, E> { ext!() }
        fn size_hint(&self) -> Option<usize> { ext!() }
    }
    impl<'de> SeqAccess<'de> for AccS {
        type Error = E;
        fn next_element_seed<X: DeserializeSeed<'de>>(&mut self, _: X) -> Result<Option<X::Value>, E> { ext!() }
        fn next_element<A: Deserialize<'de>>(&mut self) -> Result<Option<A>, E> { ext!() }
        fn size_hint(&self) -> Option<usize> { ext!() }
    }
    pub fn mk_acc() -> Acc { ext!() }
    pub fn mk_accs() -> AccS { ext!() }
    impl<'de> Deserializer<'de> for De {
        type Error = E;
        fn deserialize_any<X: Visitor<'de>>(self, _: X) -> Result<X::Value, E> { ext!() }
        fn deserialize_map<X: Visitor<'de>>(self, v: X) -> Result<X::Value, E> { v.visit_map(mk_acc()) }
        fn deserialize_seq<X: Visitor<'de>>(self, v: X) -> Result<X::Value, E> { v.visit_seq(mk_accs()) }
        serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct tuple tuple_struct struct enum identifier ignored_any }
    }
    pub fn m_ser(m: &M, s: Ser) -> Result<u64, E> { m.serialize(s) }
    pub fn r_ser(m: &R<'_>, s: Ser) -> Result<u64, E> { m.serialize(s) }
    pub fn s_ser(m: &HS, s: Ser) -> Result<u64, E> { m.serialize(s) }
    pub fn sr_ser(m: &SR<'_>, s: Ser) -> Result<u64, E> { m.serialize(s) }
    pub fn m_de(d: De) -> Result<M, E> { M::deserialize(d) }
    pub fn s_de(d: De) -> Result<HS, E> { HS::deserialize(d) }
}
