//! Properties of the library over arbitrary input.

#[macro_use]
mod harnesses {
    macro_rules! harnesses(
        ($($(#[$attribute:meta])* $name:ident $body:block)*) => (
            $(
                $(#[$attribute])*
                #[no_mangle]
                pub extern "C" fn $name() $body
            )*

            /// Find a harness by its name.
            pub fn find(name: &str) -> Option<extern "C" fn()> {
                match name {
                    $(stringify!($name) => Some($name),)*
                    _ => None,
                }
            }
        );
    );
}

pub mod decode;
pub mod fonts;
pub mod flags;
pub mod probe;
pub mod registry;
pub mod spec;
pub mod reject;
pub mod sym;
pub mod tags;
pub mod tape;
pub mod walk;

/// A replacement for formatting, which is not of interest.
#[no_mangle]
pub extern "C" fn stub_format(out: *mut String) {
    unsafe { out.write(String::new()) };
}

/// Find a harness by its name.
pub fn find(name: &str) -> Option<extern "C" fn()> {
    decode::find(name).or_else(|| fonts::find(name)).or_else(|| tags::find(name)).or_else(|| flags::find(name)).or_else(|| reject::find(name))
}
