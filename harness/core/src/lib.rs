pub mod kinds;
pub mod ledger;
pub mod machine;
pub mod run;
pub mod track;
pub mod plan;
pub mod views;
pub mod big;
pub mod reent;
pub mod cost;
