//! Message serialisers.

use std::fmt;

use crate::message;

#[derive(Debug)]
pub struct EncodeError(pub String);

impl fmt::Display for EncodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

#[derive(Debug)]
pub struct DecodeError(pub String);

impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

/// Encodes into, and decodes from, the message the current process is working on.
pub trait Serializer<M> {
    fn encode(message: &M) -> Result<(), EncodeError>;
    fn decode() -> Result<M, DecodeError>;
}

#[derive(Debug, Clone, Copy, Default)]
pub struct Bincode {}

impl<M> Serializer<M> for Bincode
where
    M: serde::Serialize + serde::de::DeserializeOwned,
{
    fn encode(message: &M) -> Result<(), EncodeError> {
        // (not `serialize`, which goes through the value twice)
        bincode::serialize_into(message::Writer, message).map_err(|e| EncodeError(e.to_string()))
    }

    fn decode() -> Result<M, DecodeError> {
        bincode::deserialize_from(message::Reader).map_err(|e| DecodeError(e.to_string()))
    }
}
