== fn Entry::new
-- sig r
-- spec
ensures r == (Entry { key, value }),
== fn Entry::clone
-- sig r
-- spec
ensures lawful_clone::<K>() && lawful_clone::<V>() ==> r == *self,
