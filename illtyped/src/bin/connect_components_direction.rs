//! A requirer is connected as the provider.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &Arc<Component<Prov>>, n: &Arc<Component<Need>>) {
    let _ = biconnect_components::<PA, _, _>(a, n);
}

#[cfg(feature = "bad")]
pub fn witness(a: &Arc<Component<Prov>>, n: &Arc<Component<Need>>) {
    let _ = biconnect_components::<PA, _, _>(n, a); //~ BAD
}
