use crate::eng::Prop;
mod erase;
// the build with whole-program optimization holds the monitors of C27 only
#[cfg(not(feature = "only_erase"))]
mod chain;
#[cfg(not(feature = "only_erase"))]
mod codec;
#[cfg(not(feature = "only_erase"))]
mod crypto;
#[cfg(feature = "shapes")]
mod derive;
#[cfg(not(feature = "only_erase"))]
mod hashes;
#[cfg(not(feature = "only_erase"))]
mod json;
#[cfg(not(feature = "only_erase"))]
mod literals;
mod literals_bad;
#[cfg(not(feature = "only_erase"))]
mod memory;
#[cfg(not(feature = "only_erase"))]
mod pure;
// some shapes have fields named like variables a macro might use; should they stop compiling,
// plain names take their place
#[cfg(feature = "shapes")]
#[cfg_attr(not(feature = "awkward"), path = "shapes_plain.rs")]
mod shapes;
#[cfg(not(feature = "only_erase"))]
mod text;
#[cfg(not(feature = "only_erase"))]
mod util;

pub fn all() -> Vec<Prop> {
    let mut v = erase::props();
    #[cfg(not(feature = "only_erase"))]
    {
        v.extend(codec::props());
        v.extend(json::props());
        v.extend(chain::props());
        v.extend(text::props());
        v.extend(hashes::props());
        v.extend(crypto::props());
        #[cfg(feature = "shapes")]
        v.extend(derive::props());
        v.extend(pure::props());
        v.extend(memory::props());
    }
    v.sort_by_key(|p| p.id);
    v
}
pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
