//! Stand-in for the hash tables: association lists with the same observable behaviour, except that
//! iteration goes in insertion order.
use std::borrow::Borrow;

#[derive(Clone, Debug, Default)]
pub struct HashMap<K, V> {
    v: Vec<(K, V)>,
}
impl<K: Eq, V> HashMap<K, V> {
    pub fn new() -> Self {
        HashMap { v: Vec::new() }
    }
    pub fn with_capacity(n: usize) -> Self {
        HashMap { v: Vec::with_capacity(n) }
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn clear(&mut self) {
        self.v.clear()
    }
    pub fn reserve(&mut self, _n: usize) {}
    fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        let mut i = 0;
        while i < self.v.len() {
            if self.v[i].0.borrow() == k {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.pos(&k) {
            Some(i) => Some(std::mem::replace(&mut self.v[i].1, v)),
            None => {
                self.v.push((k, v));
                None
            }
        }
    }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.pos(k).map(|i| &self.v[i].1)
    }
    pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        match self.pos(k) {
            Some(i) => Some(&mut self.v[i].1),
            None => None,
        }
    }
    pub fn get_or_insert_with(&mut self, k: K, f: impl FnOnce() -> V) -> &mut V {
        let i = match self.pos(&k) {
            Some(i) => i,
            None => {
                self.v.push((k, f()));
                self.v.len() - 1
            }
        };
        &mut self.v[i].1
    }
    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.pos(k).is_some()
    }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.pos(k).map(|i| self.v.swap_remove(i).1)
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.v.iter().map(|x| (&x.0, &x.1))
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> {
        self.v.iter().map(|x| &x.0)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> {
        self.v.iter().map(|x| &x.1)
    }
    pub fn entry(&mut self, k: K) -> hash_map::Entry<'_, K, V> {
        match self.pos(&k) {
            Some(i) => hash_map::Entry::Occupied(hash_map::OccupiedEntry { m: self, i, k }),
            None => hash_map::Entry::Vacant(hash_map::VacantEntry { m: self, k }),
        }
    }
}
impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = HashMap::new();
        for (k, v) in it {
            m.insert(k, v);
        }
        m
    }
}
impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<K: Eq + Borrow<Q>, Q: ?Sized + Eq, V> std::ops::Index<&Q> for HashMap<K, V> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.get(k).expect("no entry found for key")
    }
}
impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.v.into_iter()
    }
}

pub mod hash_map {
    pub use super::HashMap;
    pub enum Entry<'a, K, V> {
        Occupied(OccupiedEntry<'a, K, V>),
        Vacant(VacantEntry<'a, K, V>),
    }
    pub struct OccupiedEntry<'a, K, V> {
        pub(crate) m: &'a mut HashMap<K, V>,
        pub(crate) i: usize,
        pub(crate) k: K,
    }
    pub struct VacantEntry<'a, K, V> {
        pub(crate) m: &'a mut HashMap<K, V>,
        pub(crate) k: K,
    }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn get(&self) -> &V {
            &self.m.v[self.i].1
        }
        pub fn get_mut(&mut self) -> &mut V {
            &mut self.m.v[self.i].1
        }
        pub fn into_mut(self) -> &'a mut V {
            &mut self.m.v[self.i].1
        }
        pub fn insert(&mut self, v: V) -> V {
            std::mem::replace(&mut self.m.v[self.i].1, v)
        }
        pub fn key(&self) -> &K {
            &self.k
        }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn insert(self, v: V) -> &'a mut V {
            self.m.v.push((self.k, v));
            let i = self.m.v.len() - 1;
            &mut self.m.v[i].1
        }
        pub fn key(&self) -> &K {
            &self.k
        }
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn or_insert(self, v: V) -> &'a mut V {
            self.or_insert_with(|| v)
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(f()),
            }
        }
        pub fn or_default(self) -> &'a mut V
        where
            V: Default,
        {
            self.or_insert_with(V::default)
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct HashSet<K> {
    m: HashMap<K, ()>,
}
impl<K: Eq> HashSet<K> {
    pub fn new() -> Self {
        HashSet { m: HashMap::new() }
    }
    pub fn with_capacity(n: usize) -> Self {
        HashSet { m: HashMap::with_capacity(n) }
    }
    pub fn len(&self) -> usize {
        self.m.len()
    }
    pub fn is_empty(&self) -> bool {
        self.m.is_empty()
    }
    pub fn clear(&mut self) {
        self.m.clear()
    }
    pub fn insert(&mut self, k: K) -> bool {
        self.m.insert(k, ()).is_none()
    }
    pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.m.contains_key(k)
    }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.m.remove(k).is_some()
    }
    pub fn iter(&self) -> impl Iterator<Item = &K> {
        self.m.keys()
    }
}
impl<K: Eq> FromIterator<K> for HashSet<K> {
    fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self {
        let mut m = HashSet::new();
        for k in it {
            m.insert(k);
        }
        m
    }
}
