== items
pub use crate::vx::DefaultBuildHasher;

== skip
type:DefaultBuildHasher a type alias chosen by a cargo feature; modelled in the prelude

== fn replace
-- spec
requires lawful_clone::<T>(),
ensures *final(dest) == *src,
