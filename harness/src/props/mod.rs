//! One function per property; the modules are features so that each also builds alone.
use crate::core::Ctx;

pub mod bencode;
pub mod gen;
pub mod kmsg;
pub mod swarm;

macro_rules! modules {
    ($($feature:literal $module:ident : $($id:literal $f:ident),+ ;)+) => {
        $(#[cfg(feature = $feature)] mod $module;)+

        pub fn table() -> Vec<(&'static str, fn(&mut Ctx))> {
            #[allow(unused_mut)]
            let mut t: Vec<(&'static str, fn(&mut Ctx))> = vec![];
            $(
                #[cfg(feature = $feature)]
                { $(t.push(($id, $module::$f));)+ }
            )+
            t
        }
    };
}

modules! {
    "program" program: "C37" program;
    "whole" whole: "C35" whole_client;
    "manager" manager: "C19" availability, "C20" download;
    "dht" dht: "C14" queries, "C15" announcements, "C16" responses, "C34" restart, "C36" hunting;
    "krpc" krpc: "C12" round_trip, "C13" robust;
    "timing" timing: "C32" shutdowns, "C33" growing;
    "peers" peers: "C17" candidates, "C18" lookups;
    "tracker" tracker: "C27" announce_url, "C28" responses, "C29" sessions;
    "metainfo" metainfo: "C25" parsing, "C26" hostile;
    "fs" fs: "C21" single, "C22" multi, "C23" file_cache, "C24" containment;
    "pieces" pieces: "C05" assembly, "C06" integrity, "C07" requests, "C08" choking;
    "data" data: "C30" id_metric, "C31" bitmap;
    "table" table: "C09" structure, "C10" lookups, "C11" persistence;
    "wire" wire: "C01" codec, "C02" decode_any, "C03" stream, "C04" handshakes;
}

/// One scenario of C37, in a network of its own.
pub fn alone(_file: &str) -> i32 {
    #[cfg(feature = "program")]
    return program::alone(_file);
    #[cfg(not(feature = "program"))]
    3
}
