
// ---------------------------------------------------------------- serde
pub trait Serialize: Sized {}

/// Model of `serde::de::SeqAccess`: the elements still to come, when read as `T`.
pub trait SeqAccess<'de>: Sized {
    type Error;
    spec fn elems<T>(&self) -> Seq<T>;
    /// reading on to the end meets an error
    spec fn fails<T>(&self) -> bool;
    spec fn hint(&self) -> Option<usize>;
    fn size_hint(&self) -> (r: Option<usize>)
        ensures r == self.hint();
    fn next_element<T>(&mut self) -> (r: Result<Option<T>, Self::Error>)
        ensures match r {
            Ok(None) => old(self).elems::<T>().len() == 0 && final(self).elems::<T>().len() == 0
                && !old(self).fails::<T>() && !final(self).fails::<T>(),
            Ok(Some(x)) => old(self).elems::<T>().len() > 0 && x == old(self).elems::<T>()[0]
                && final(self).elems::<T>() == old(self).elems::<T>().subrange(1, old(self).elems::<T>().len() as int)
                && final(self).fails::<T>() == old(self).fails::<T>(),
            Err(_) => old(self).fails::<T>(),
        };
}

pub trait MapAccess<'de>: Sized {
    type Error;
    spec fn entries<K, V>(&self) -> Seq<(K, V)>;
    /// reading on to the end meets an error
    spec fn fails<K, V>(&self) -> bool;
    spec fn hint(&self) -> Option<usize>;
    fn size_hint(&self) -> (r: Option<usize>)
        ensures r == self.hint();
    fn next_entry<K, V>(&mut self) -> (r: Result<Option<(K, V)>, Self::Error>)
        ensures match r {
            Ok(None) => old(self).entries::<K, V>().len() == 0 && final(self).entries::<K, V>().len() == 0
                && !old(self).fails::<K, V>() && !final(self).fails::<K, V>(),
            Ok(Some(x)) => old(self).entries::<K, V>().len() > 0 && x == old(self).entries::<K, V>()[0]
                && final(self).entries::<K, V>() == old(self).entries::<K, V>().subrange(1, old(self).entries::<K, V>().len() as int)
                && final(self).fails::<K, V>() == old(self).fails::<K, V>(),
            Err(_) => old(self).fails::<K, V>(),
        };
}

/// Model of `serde::ser::Serializer`: what document a sequence or map of items yields.
pub trait Serializer: Sized {
    type Ok;
    type Error;
    spec fn seq_doc<T>(self, items: Seq<T>, r: Result<Self::Ok, Self::Error>) -> bool;
    spec fn map_doc<T>(self, items: Seq<T>, r: Result<Self::Ok, Self::Error>) -> bool;
    fn collect_seq<I: IntoIterator>(self, iter: I) -> (r: Result<Self::Ok, Self::Error>)
        requires iter.into_wf(),
        ensures self.seq_doc(iter.into_rest(), r);
    fn collect_map<I: IntoIterator>(self, iter: I) -> (r: Result<Self::Ok, Self::Error>)
        requires iter.into_wf(),
        ensures self.map_doc(iter.into_rest(), r);
}

/// A visitor of sequences: what it needs of a sequence and what it makes of it.
pub trait VxSeqVisitor<'de>: Sized {
    type Value;
    spec fn seq_pre<A: SeqAccess<'de>>(seq: A) -> bool;
    spec fn seq_post<A: SeqAccess<'de>>(seq: A, r: Self::Value) -> bool;
    spec fn seq_fails<A: SeqAccess<'de>>(seq: A) -> bool;
    fn vx_visit_seq<A: SeqAccess<'de>>(self, seq: A) -> (r: Result<Self::Value, A::Error>)
        requires Self::seq_pre(seq),
        ensures r matches Ok(x) ==> Self::seq_post(seq, x), r is Err <==> Self::seq_fails(seq);
}
pub trait VxMapVisitor<'de>: Sized {
    type Value;
    spec fn map_pre<A: MapAccess<'de>>(map: A) -> bool;
    spec fn map_post<A: MapAccess<'de>>(map: A, r: Self::Value) -> bool;
    spec fn map_fails<A: MapAccess<'de>>(map: A) -> bool;
    fn vx_visit_map<A: MapAccess<'de>>(self, map: A) -> (r: Result<Self::Value, A::Error>)
        requires Self::map_pre(map),
        ensures r matches Ok(x) ==> Self::map_post(map, x), r is Err <==> Self::map_fails(map);
}

/// Model of `serde::Deserializer`: hands the sequence (or map) that the document holds to the visitor.
pub trait Deserializer<'de>: Sized {
    type Error;
    type VxSeq: SeqAccess<'de, Error = Self::Error>;
    type VxMap: MapAccess<'de, Error = Self::Error>;
    spec fn seq(&self) -> Self::VxSeq;
    spec fn map(&self) -> Self::VxMap;
    /// there is no such sequence or map to read
    spec fn refuses(&self) -> bool;
    fn deserialize_seq<V: VxSeqVisitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
        requires V::seq_pre(self.seq()),
        ensures r matches Ok(x) ==> V::seq_post(self.seq(), x) && !V::seq_fails(self.seq()) && !self.refuses(),
            r is Err ==> self.refuses() || V::seq_fails(self.seq());
    fn deserialize_map<V: VxMapVisitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
        requires V::map_pre(self.map()),
        ensures r matches Ok(x) ==> V::map_post(self.map(), x) && !V::map_fails(self.map()) && !self.refuses(),
            r is Err ==> self.refuses() || V::map_fails(self.map());
}

pub trait Deserialize<'de>: Sized {
    spec fn de_pre<D: Deserializer<'de>>(d: D) -> bool;
    spec fn de_post<D: Deserializer<'de>>(d: D, r: Self) -> bool;
    spec fn de_fails<D: Deserializer<'de>>(d: D) -> bool;
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> (r: Result<Self, D::Error>)
        requires Self::de_pre(deserializer),
        ensures r matches Ok(x) ==> Self::de_post(deserializer, x),
            r is Err <==> deserializer.refuses() || Self::de_fails(deserializer);
}
