use crate::runner::Prop;

pub mod args;
pub mod cursor;
pub mod dbus_dec;
pub mod dbus_enc;
pub mod foreign;
pub mod hash;
pub mod hold;
pub mod io;
pub mod json_pull;
pub mod json_push;
pub mod mix;
pub mod release;
pub mod rng;
pub mod sink;
pub mod wrap;

pub const ALL: &[&Prop] = &[&dbus_enc::C01, &dbus_enc::C02, &dbus_enc::C03, &dbus_enc::C04, &dbus_dec::C05, &dbus_dec::C06, &dbus_dec::C07, &json_push::C08, &json_push::C09, &json_pull::C10, &json_pull::C11, &json_pull::C12, &io::C13, &io::C14, &io::C15, &hash::C16, &hash::C17, &args::C18, &args::C19, &args::C20, &sink::C21, &mix::C22, &rng::C24, &release::C29, &hold::C30, &cursor::C31, &wrap::C32, &foreign::C33];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id).copied()
}
