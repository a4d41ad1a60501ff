//! A controlled runtime for model checking: everything of `std` that liso (or a reasonable
//! rewrite of it) uses to meet the outside world, run by a deterministic scheduler.
#![allow(clippy::result_unit_err)]
#![allow(clippy::new_without_default)]

pub mod env;
pub mod fs;
pub mod io;
pub mod panic;
pub mod process;
pub mod rt;
pub mod sync;
pub mod term;
pub mod thread;
pub mod time;
pub mod world;

pub mod os {
    pub use ::std::os::*;
    pub mod unix {
        pub use ::std::os::unix::*;
        pub mod thread {
            pub type RawPthread = u64;
            pub trait JoinHandleExt {
                fn as_pthread_t(&self) -> RawPthread;
                fn into_pthread_t(self) -> RawPthread;
            }
            impl<T> JoinHandleExt for crate::thread::JoinHandle<T> {
                fn as_pthread_t(&self) -> RawPthread {
                    self.sim_id() as u64
                }
                fn into_pthread_t(self) -> RawPthread {
                    self.sim_id() as u64
                }
            }
        }
    }
}

#[macro_export]
macro_rules! print {
    ($($a:tt)*) => { $crate::io::_print(format_args!($($a)*)) };
}
#[macro_export]
macro_rules! println {
    () => { $crate::io::_print(format_args!("\n")) };
    ($($a:tt)*) => { $crate::io::_print(format_args!("{}\n", format_args!($($a)*))) };
}
#[macro_export]
macro_rules! eprint {
    ($($a:tt)*) => { $crate::io::_eprint(format_args!($($a)*)) };
}
#[macro_export]
macro_rules! eprintln {
    () => { $crate::io::_eprint(format_args!("\n")) };
    ($($a:tt)*) => { $crate::io::_eprint(format_args!("{}\n", format_args!($($a)*))) };
}

#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $b:block $(; $($r:tt)*)?) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new(|| $b);
        $($crate::thread_local! { $($r)* })?
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $e:expr $(; $($r:tt)*)?) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new(|| $e);
        $($crate::thread_local! { $($r)* })?
    };
}
