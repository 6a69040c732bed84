//! amqp-sim: deterministic simulation of AMQP connections around the real amqp-codec crate.
mod alloc;
mod conn;
mod drive;
mod gen;
mod kinds;
mod model;
mod net;
mod refamqp;
mod runner;
mod scn_hostile;
mod scn_msg;
mod scn_multi;
mod scn_stream;
mod scn_types;
mod scn_wire;
mod spec;
mod tape;
mod typed;

#[global_allocator]
static METER: alloc::Meter = alloc::Meter;

fn main() {
    std::process::exit(runner::main());
}
