use crate::pbt::Property;
pub mod chain;
pub mod net;
pub mod netsim;
pub mod peers;
pub mod reactor;
pub mod scan;
pub mod client;
pub mod serve;
pub mod small;
pub mod stores;
pub mod tx;
pub mod ping;
pub mod wire;

pub fn all() -> Vec<&'static Property> {
    let mut v = Vec::new();
    v.extend(chain::PROPS.iter());
    v.extend(stores::PROPS.iter());
    v.extend(net::PROPS.iter());
    v.extend(peers::PROPS.iter());
    v.extend(scan::PROPS.iter());
    v.extend(tx::PROPS.iter());
    v.extend(wire::PROPS.iter());
    v.extend(ping::PROPS.iter());
    v.extend(serve::PROPS.iter());
    v.extend(client::PROPS.iter());
    v.extend(reactor::PROPS.iter());
    v.extend(small::PROPS.iter());
    v.extend(netsim::PROPS.iter());
    v
}
