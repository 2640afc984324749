pub mod chain;
pub mod cli;
pub mod convert;
pub mod draw;
pub mod equiv;
pub mod eval;
pub mod product;
pub mod reach;
pub mod regex;
pub mod table;
pub mod words;

use crate::engine::Prop;

pub trait Visitor {
    type Out;
    fn visit<P: Prop>(self, p: P) -> Self::Out;
}

macro_rules! registry {
    ($($id:literal => $p:expr),* $(,)?) => {
        pub const IDS: &[&str] = &[$($id),*];
        pub fn dispatch<V: Visitor>(id: &str, v: V) -> Option<V::Out> {
            match id {
                $($id => Some(v.visit($p)),)*
                _ => None,
            }
        }
    };
}

registry! {
    "C01" => table::DfaTable,
    "C02" => table::NfaTable,
    "C03" => table::BadTable,
    "C04" => table::DfaReprint,
    "C05" => table::NfaReprint,
    "C06" => regex::Meaning,
    "C07" => regex::Syntax,
    "C08" => regex::Printing,
    "C09" => regex::Trees,
    "C10" => eval::DfaEval,
    "C11" => eval::NfaEval,
    "C12" => eval::Graphemes,
    "C13" => convert::ToDfa,
    "C14" => convert::ToNfa,
    "C15" => convert::RemoveEps,
    "C16" => reach::Reach,
    "C17" => equiv::DfaEquiv,
    "C18" => equiv::NfaEquiv,
    "C19" => product::DfaBool,
    "C20" => product::DfaProduct,
    "C21" => product::NfaUnion,
    "C22" => product::NfaProduct,
    "C23" => reach::Invert,
    "C24" => reach::Minimize,
    "C25" => reach::Classes,
    "C26" => words::Enum,
    "C27" => chain::Chains,
    "C28" => cli::Equivalence,
    "C29" => cli::SetOps,
    "C30" => cli::EnumerateCmd,
    "C31" => cli::TestFile,
    "C32" => cli::OutFile,
    "C34" => draw::Drawing,
    "C35" => draw::Options,
    "C36" => draw::Ascii,
}
