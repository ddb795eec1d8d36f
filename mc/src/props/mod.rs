pub mod forms;
pub mod keys;
pub mod robust;
pub mod times;
pub mod urls;
pub mod bound;
pub mod services;
pub mod preempt;
