//! A component is connected to a port it does not require.
#![allow(unused, clippy::all)]
use kf_illtyped::*;

fn main() {}

#[cfg(not(feature = "bad"))]
pub fn witness(a: &Arc<Component<Prov>>, x: RequiredRef<PA>, n: &Arc<Component<Need>>, y: ProvidedRef<PB>, z: ProvidedRef<PA>) {
    let _ = a.connect_to_required(x);
    let _ = n.connect_to_provided(z);
}

#[cfg(feature = "bad")]
pub fn witness(a: &Arc<Component<Prov>>, x: RequiredRef<PA>, n: &Arc<Component<Need>>, y: ProvidedRef<PB>, z: ProvidedRef<PA>) {
    let _ = n.connect_to_provided(y); //~ BAD
}
