//! Properties of chalamet as symbolic harnesses.  Every `entry` is executed symbolically over the
//! compiled code of the repository; the same function runs natively to replay an input.
pub mod sym;

#[macro_export]
macro_rules! entries {
    ($($name:ident),* $(,)?) => {
        $(
            const _: () = {
                #[export_name = stringify!($name)]
                pub extern "C" fn entry() {
                    super::$name()
                }
            };
        )*
        pub fn find(name: &str) -> Option<fn()> {
            $(if name == stringify!($name) {
                return Some(super::$name);
            })*
            None
        }
    };
}

#[cfg(feature = "fmt")]
pub mod fmt;
#[cfg(feature = "pir")]
pub mod pir;
#[cfg(feature = "bff")]
pub mod bff;
#[cfg(feature = "cli")]
pub mod cli;

pub fn find(name: &str) -> Option<fn()> {
    let r: Option<fn()> = None;
    #[cfg(feature = "fmt")]
    let r = r.or_else(|| fmt::e::find(name));
    #[cfg(feature = "pir")]
    let r = r.or_else(|| pir::e::find(name));
    #[cfg(feature = "bff")]
    let r = r.or_else(|| bff::e::find(name));
    #[cfg(feature = "cli")]
    let r = r.or_else(|| cli::e::find(name));
    let _ = name;
    r
}
