//@@ struct crates/syntax/src/span.rs Position derive=Clone,Copy
//@@ struct crates/syntax/src/span.rs Span derive=Clone,Copy
