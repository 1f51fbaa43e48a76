pub mod behave;
pub mod chain;
pub mod live;
pub mod relay;
pub mod store;
pub mod scan;
pub mod session;
pub mod hostile;
pub mod book;
pub mod links;
pub mod clock;
pub mod user;
pub mod coins;
