//! Stand-in: the text of a panic.
use std::any::Any;
pub fn get_panic_message(payload: &Box<dyn Any + Send>) -> Option<&str> {
  payload.downcast_ref::<&str>().copied().or_else(|| payload.downcast_ref::<String>().map(|s| s.as_str()))
}
pub fn panic_message(payload: &Box<dyn Any + Send>) -> &str { get_panic_message(payload).unwrap_or("Box<dyn Any>") }
