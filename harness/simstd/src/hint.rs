pub use ::std::hint::*;
pub fn spin_loop() {
    if crate::rt::in_task() {
        crate::rt::yield_now()
    }
}
