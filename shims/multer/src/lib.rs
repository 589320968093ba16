//! Empty stand-in: only needed so that cargo can resolve the (disabled) multipart feature.
