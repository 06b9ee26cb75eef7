//! Nothing of typst-shim is needed.
