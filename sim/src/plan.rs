//! What the outside world answers: the results and failures of native calls, chosen by the seed.
use crate::rng::mix;

#[derive(Clone, Debug, PartialEq)]
pub enum Pv { Arg, Nil, Bool(bool), Int(i64), Str(String) }
#[derive(Clone, Debug, PartialEq)]
pub enum FfiOutcome { Fail(String), Val(Pv) }

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan { pub seed: u64, pub fail: Vec<u64>, pub web: bool }
impl Plan {
    /// The outcome of the `idx`-th native call of the run: `p` echoes its first argument, `c` is a coin,
    /// anything else returns a value.  A failing call carries its own index in its message.
    pub fn ffi(&self, idx: u64, name: &str) -> FfiOutcome {
        if self.web { return FfiOutcome::Val(Pv::Nil) }
        if self.fail.contains(&idx) { return FfiOutcome::Fail(format!("fault #{}", idx)) }
        let h = mix(self.seed ^ mix(idx));
        FfiOutcome::Val(match name {
            "p" => Pv::Arg,
            "c" => Pv::Bool(h & 1 == 1),
            _ => match h % 6 { 0 => Pv::Nil, 1 => Pv::Bool(h & 64 != 0), 2 => Pv::Str(format!("s{}", (h >> 8) % 5)), 3 => Pv::Str(format!("long returned string number {}", (h >> 8) % 3)), _ => Pv::Int(((h >> 8) % 7) as i64 - 1) },
        })
    }
}
