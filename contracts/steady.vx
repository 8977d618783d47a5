# The steady ticker, without signals.
@include steady_body.vx
@raw
pub use vsg::*;
pub mod vsg {
use super::*;
pub open spec fn waited(t: Tv) -> Tv { t }
pub open spec fn ready(t: Tv) -> bool { true }
}
@end
@fn spawn_ticker #thread
+as vx_ticker
+closurebody 0
+attrs #[verifier::exec_allows_no_decreases_clause]
+props C21
+params Tracked(t): Tracked<&mut Thr>
+path drop vx_drop
+sig
requires old(t).tv().alive, !old(t).tv().locked, !old(t).tv().held,
ensures !final(t).tv().alive,
+loop 0
invariant t.tv().alive, t.tv().locked, !t.tv().held,
