pub mod lin;
pub mod curves;
pub mod liq;
pub mod fee;
pub mod acct;
pub mod arith;
pub mod init;
pub mod sys;
pub mod err;
pub mod cli;
use crate::engine::Prop;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(lin::props());
    v.extend(curves::props());
    v.extend(liq::props());
    v.extend(fee::props());
    v.extend(acct::props());
    v.extend(arith::props());
    v.extend(init::props());
    v.extend(sys::props());
    v.extend(err::props());
    v.extend(cli::props());
    v
}
