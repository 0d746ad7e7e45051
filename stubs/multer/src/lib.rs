//! Offline placeholder: never enabled.
