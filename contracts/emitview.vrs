//@@ struct crates/foundry/src/scaffold/emitter.rs Emitter
