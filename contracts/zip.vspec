@@module zip src/zip.rs
