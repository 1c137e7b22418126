//! Components without a common port are connected.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &Arc<Component<Prov>>, n: &Arc<Component<Need>>, o: &Arc<Component<Other>>) {
    let _ = biconnect_components::<PA, _, _>(a, n);
    let _ = biconnect_components::<PB, _, _>(a, o);
}

#[cfg(feature = "bad")]
pub fn witness(a: &Arc<Component<Prov>>, n: &Arc<Component<Need>>, o: &Arc<Component<Other>>) {
    let _ = biconnect_components::<PA, _, _>(a, o); //~ BAD
}
