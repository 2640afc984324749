use std::path::PathBuf;
use vcore::engine::*;
use vcore::props::{dispatch, Visitor, IDS};

struct Check(Config, bool);
impl Visitor for Check {
    type Out = i32;
    fn visit<P: Prop>(self, p: P) -> i32 {
        if self.1 {
            run_check(p, &self.0)
        } else {
            supervise(p, &self.0)
        }
    }
}

struct Replay(serde_json::Value, PathBuf);
impl Visitor for Replay {
    type Out = i32;
    fn visit<P: Prop>(self, p: P) -> i32 {
        run_replay(p, &self.0, &self.1)
    }
}

fn main() {
    std::process::exit(vcore::engine::cli_main(
        IDS,
        |id, cfg, inner| dispatch(id, Check(cfg, inner)),
        |id, v, p| dispatch(id, Replay(v, p)),
    ));
}

