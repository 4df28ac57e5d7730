use crate::engine::Prop;

pub mod balance;
mod building;
mod cli;
mod configs;
mod derived;
mod explore;
mod fmi;
mod osm;
mod outputs;
mod robust;
mod routes;
mod routing;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(routing::props());
    v.extend(building::props());
    v.extend(fmi::props());
    v.extend(derived::props());
    v.extend(routes::props());
    v.extend(robust::props());
    v.extend(configs::props());
    v.extend(osm::props());
    v.extend(balance::props());
    v.extend(cli::props());
    v.extend(explore::props());
    v.extend(outputs::props());
    v
}

pub fn fault_child(_args: &[String]) {
    std::process::exit(2)
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}
