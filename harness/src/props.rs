//! The table of properties.
use crate::engine::Prop;
use crate::*;

const MODEL: &str = "the reference model in harness/src/model.rs says what the property statement says";
const BOUND: &str = "nothing is claimed about inputs outside the enumerated spaces listed in the evidence";

pub fn core() -> Vec<Prop> {
    let mc = "model_checking";
    macro_rules! p {
        ($id:expr, $f:expr, $rule:expr) => {
            Prop { id: $id, level: mc, rule: $rule, assumptions: &[MODEL, BOUND], spaces: $f }
        };
    }
    vec![
        p!("V01", ver::v01, "every text of each space is parsed through every parsing entry point of the real code and the answer compared with the grammar model"),
        p!("V02", ver::v02, "every text of each space is parsed by the real code and its text, display form and part list compared with the model's parts"),
        p!("V03", ver::v03, "every pair of each version set is compared by the real code; from the complete answer matrix every pair is checked for reflexivity and antisymmetry and every triple for transitivity, and all entry points for agreement"),
        p!("V04", ver::v04, "every pair of each version set is compared by the real code and by the model's order key"),
        p!("V05", ver::v05, "every operator on every pair of each version set, on the real code and on the model"),
        p!("O01", ops::o01, "every operator and every lookup text of each space, on the real code and on the model table"),
        p!("S01", spec::s01, "every relational form of every V against every candidate, on the real code and on the model"),
        p!("S02", spec::s02, "every prefix form of every V against every candidate, on the real code and on the model"),
        p!("S03", spec::s03, "every wildcard, regex and literal text of each space against every candidate, on the real code and on the model's glob and regex matchers"),
        p!("S04", spec::s04, "every text of each space through all three spec parsers; acceptance compared with the model's classification where the statement settles it; accepted specs matched against versions"),
        p!("S05", spec::s05, "every spec text of each space: exactness, exact value and text compared with the model, and pairs of accepted versions with each other"),
        p!("S06", laws::s06, "every V of each space: what the real code answers for all specs over V on all candidates, compared with each other and with the real order of the candidates; no model of the order is used"),
        p!("C01", laws::c01, "every value of each space is cloned by the real code and the clone compared with its original through every public answer, before and after the original is gone"),
        p!("T01", tree::t01, "every well-formed expression of each space is parsed by the real code and evaluated under every assignment against a recursive-descent reference parser"),
        p!("T02", tree::t02, "every token sequence of each space that the reference parser rejects is given to the real parser"),
        p!("T03", tree::t03, "every parsed text and every constructible tree shape up to the bound is written, read back, and compared under every assignment"),
        p!("T04", tree::t04, "every tree shape and expression up to the bound is matched against candidate versions realising the assignments"),
        p!("T05", tree::t05, "every pair (and triple) of labelled tree shapes up to the bound is compared by the real code and by structural equality of the model"),
        p!("D01", repo::d01, "every document of each space is written out and loaded by the real code, and every field of every record compared with the abstract document it was written from"),
        Prop { id: "D02", level: "fault_enumeration", rule: "every damage of each space is applied to a document and the result loaded by the real code; an independent JSON reader with a schema says whether loading must fail, or what it must give; a case is non-trivial when the damaged file differs from every other", assumptions: &[MODEL, BOUND, "serde_json's depth limit and its reading of unpaired surrogates are left open"], spaces: repo::d02 },
        p!("D03", repo::d03, "every re-serialisation of each space is loaded by the real code and every field compared with the one abstract document"),
        Prop { id: "D04", level: "fault_enumeration", rule: "a plan says at which byte of a file reads end, are interrupted, fail, or find the end of the file; every plan of each space is carried out between the standard library and the system while the real code loads, and the result compared with the document, or must be an error where a fault was delivered or the bytes delivered are no document; the same documents, whole and damaged, through every other JSON source", assumptions: &[MODEL, BOUND, "the loader reads through the C library's read; a loader that reads by other calls meets no planned event (pipes, places and sources still apply)"], spaces: io::d04 },
        Prop { id: "H01", level: mc, rule: "every history (sequence of queries with an assignment to threads) of each space runs on the real code in a process of its own; each answer is compared with the answer the same query gives in a process that does nothing else, and every value obtained is asked again at the end; for pairs of calls that overlap in time a controlled scheduler runs every interleaving of their accesses to shared memory within the preemption bound; states are distinct histories and pairs", assumptions: &["interleavings are sequentially consistent: effects of weaker memory orderings are not explored", "switches where the access before them is independent of what the other thread does until it is switched away are equivalent to later ones and left out", "nothing is claimed about queries and history lengths outside the spaces listed in the evidence"], spaces: hist::h01 },
        p!("T06", tree::t06, "every value of each space is printed in every form"),
    ]
}
